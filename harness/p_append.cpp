// C12 append sessions, C13 compression.
#include "model.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <unistd.h>
using namespace vp;

struct Acr {
   std::string name, text;
   int idx;
};

static void checkAcr( Ctx &c, TGXFileObj &g, const std::vector<Acr> &acr )
{
   c.check( g.gdxAcronymCount() == (int) acr.size(), "acronym count ", g.gdxAcronymCount(), " expected ", acr.size() );
   for( size_t i = 0; i < acr.size(); i++ )
   {
      char n[256], t[256];
      int ix = -1;
      c.check( g.gdxAcronymGetInfo( (int) i + 1, n, t, ix ) == 1, "acronym ", i + 1, " missing" );
      c.check( acr[i].name == n && acr[i].text == t && ix == acr[i].idx, "acronym ", i + 1, " is ", q( n ), " ", q( t ), " ", ix, ", expected ", q( acr[i].name ), " ", q( acr[i].text ), " ", acr[i].idx );
   }
}

// One more session on a document: labels, texts, acronyms, symbols, aliases, comments on any symbol.
struct Session {
   std::vector<std::string> newPool;
   std::vector<std::string> newTexts;
   std::vector<Acr> newAcr;
   std::vector<SymPlan> syms;
   std::vector<std::pair<int, std::string>> lateComments;// symbol number (may be old), text
   WriteCfg w;
   std::vector<int> regDom;// per symbol: 0 none, 1 regular domain
   std::vector<std::vector<int>> domOf;// symbol numbers (0 universe)
};

static Session genSession( Src &s, int k, std::vector<std::string> &pool, std::set<std::string> &seenUel, std::vector<std::string> &texts, std::set<std::string> &seenTxt,
                           std::vector<Acr> &acr, std::set<std::string> &names, std::vector<SymPlan> &all, const GenOpt &o )
{
   Session r;
   int regime = k == 0 ? s.weighted( { 8, 3, 1 } ) : 0;
   if( k == 0 || s.chance( 2, 3 ) )
      for( auto &u: genPool( s, regime ) )
      {
         if( (int) r.newPool.size() > 40 && k > 0 ) break;
         std::string v = u;
         if( !seenUel.insert( upper( v ) ).second )
         {
            v = "u" + std::to_string( k ) + "_" + std::to_string( seenUel.size() );
            if( !seenUel.insert( upper( v ) ).second ) continue;
         }
         r.newPool.push_back( v );
         pool.push_back( v );
      }
   int nt = s.size( 8 );
   for( int i = 0; i < nt; i++ )
   {
      std::string t = genText( s );
      if( seenTxt.insert( goodText( t ) ).second )
      {
         r.newTexts.push_back( t );
         texts.push_back( t );
      }
   }
   int na = s.weighted( { 5, 2, 1 } );
   for( int i = 0; i < na; i++ )
   {
      Acr a { "acr" + std::to_string( acr.size() ) + ( s.flip() ? "X" : "" ), genText( s, 60 ), (int) acr.size() * 7 + 1 + s.range( 0, 6 ) };
      // texts of acronyms are stored as given
      a.text = goodText( a.text );
      acr.push_back( a );
      r.newAcr.push_back( a );
   }
   int ns = s.weighted( { 2, 4, 3, 1 } );
   for( int i = 0; i < ns; i++ )
   {
      SymPlan y;
      y.name = genIdent( s );
      while( !names.insert( upper( y.name ) ).second ) y.name = "s" + std::to_string( names.size() ) + "_" + std::to_string( k );
      std::vector<int> sets;
      for( size_t q = 0; q < all.size(); q++ )
         if( all[q].type == GMS_DT_SET || all[q].type == GMS_DT_ALIAS ) sets.push_back( (int) q + 1 );
      if( s.chance( 1, 5 ) )
      {
         y.type = GMS_DT_ALIAS;
         y.aliasOf = sets.empty() || s.chance( 1, 4 ) ? 0 : s.pick( sets );
         y.dim = y.aliasOf ? all[y.aliasOf - 1].dim : 1;
         y.user = y.aliasOf;
      }
      else
      {
         y.dim = s.weighted( { 2, 5, 4, 2, 1 } );
         if( y.dim == 4 ) y.dim = s.range( 4, 20 );
         y.type = s.range( 0, 3 );
         y.user = y.type == GMS_DT_VAR ? s.range( 0, 9 ) : ( y.type == GMS_DT_EQU ? GMS_EQU_USERINFO_BASE + s.range( 0, 6 ) : s.range( 0, 1 ) );
         y.expl = genText( s );
         y.recs = pool.empty() && y.dim ? std::vector<Rec> {} : genRecs( s, y.dim, y.type, std::max( 1, (int) pool.size() ), 0, o, (int) texts.size() );
         if( y.type == GMS_DT_PAR && !acr.empty() )
            for( auto &rec: y.recs )
               if( s.chance( 1, 6 ) ) rec.v[0] = GMS_SV_ACR * s.pick( acr ).idx;
         if( s.chance( 1, 5 ) ) y.comments.push_back( genText( s ) );
         if( y.dim && s.chance( 1, 5 ) )
            for( int d = 0; d < y.dim; d++ ) y.domX.push_back( s.chance( 1, 3 ) ? "*" : genIdent( s ) );
      }
      all.push_back( y );
      r.syms.push_back( y );
   }
   int nc = s.weighted( { 3, 2, 1 } );
   for( int i = 0; i < nc && !all.empty(); i++ ) r.lateComments.push_back( { s.range( 1, (int) all.size() ), genText( s ) } );
   r.w.regMode = s.range( 0, 2 );
   for( size_t i = 0; i < r.syms.size(); i++ )
   {
      int m = s.range( 0, 3 );
      if( m == W_MAP && r.w.regMode == 0 ) m = W_RAW;
      r.w.mode.push_back( m );
   }
   if( r.w.regMode == 2 )
   {
      int base = s.range( 1, 50 ), n = (int) pool.size(), kind = s.range( 0, 2 );
      for( int i = 0; i < n; i++ ) r.w.umap.push_back( kind == 0 ? base + i : ( kind == 1 ? base + 2 * i : base + n - i ) );
   }
   r.w.shuffle = s.flip();
   return r;
}

static void runSession( Ctx &c, Src &s, TGXFileObj &g, const Session &se, Plan &cum, std::vector<Acr> &acrDone, Doc &d )
{
   size_t oldN = cum.pool.size();
   cum.pool.insert( cum.pool.end(), se.newPool.begin(), se.newPool.end() );
   // labels: old ones again where user numbers are needed
   bool needAll = false;
   for( int m: se.w.mode ) needAll |= m == W_MAP;
   bool reReg = se.w.regMode != 0 && ( needAll || s.flip() );
   switch( se.w.regMode )
   {
      case 0: c.check( g.gdxUELRegisterRawStart() == 1, "raw registration does not start" ); break;
      case 1: c.check( g.gdxUELRegisterStrStart() == 1, "string registration does not start" ); break;
      default: c.check( g.gdxUELRegisterMapStart() == 1, "mapped registration does not start" ); break;
   }
   for( size_t i = reReg ? 0 : oldN; i < cum.pool.size(); i++ )
   {
      int nr = -1;
      std::string u = i < oldN ? recase( s, cum.pool[i] ) : cum.pool[i];
      int r = se.w.regMode == 0 ? g.gdxUELRegisterRaw( u.c_str() ) : ( se.w.regMode == 1 ? g.gdxUELRegisterStr( u.c_str(), nr ) : g.gdxUELRegisterMap( se.w.umap[i], u.c_str() ) );
      c.check( r == 1, "registration of label ", q( u ), " failed" );
      if( i >= oldN ) d.addUel( u );
   }
   c.check( g.gdxUELRegisterDone() == 1, "registration does not finish" );
   for( auto &t: se.newTexts )
   {
      int nr = -1;
      c.check( g.gdxAddSetText( t.c_str(), nr ) == 1 && nr == (int) d.texts.size(), "set text ", q( t ), " got number ", nr, " expected ", d.texts.size() );
      d.texts.push_back( goodText( t ) );
   }
   if( d.texts.size() > 1 && s.flip() )
   {// an old text is found again
      int n = s.range( 0, (int) d.texts.size() - 1 ), nr = -1;
      c.check( g.gdxAddSetText( d.texts[n].c_str(), nr ) == 1 && nr == n, "known set text ", q( d.texts[n] ), " got number ", nr, " expected ", n );
   }
   for( auto &a: se.newAcr )
   {
      int r = g.gdxAcronymAdd( a.name.c_str(), a.text.c_str(), a.idx );
      acrDone.push_back( a );
      c.check( r == (int) acrDone.size(), "acronym ", a.name, " added as ", r, " expected ", acrDone.size() );
   }
   for( size_t i = 0; i < se.syms.size(); i++ )
   {
      if( !d.syms.empty() && s.chance( 1, 4 ) )
      {// an existing name is refused
         std::string n = recase( s, s.pick( d.syms ).name );
         c.check( g.gdxDataWriteRawStart( n.c_str(), "", 1, 1, 0 ) == 0, "existing symbol ", n, " can be written again" );
         g.gdxGetLastError();
      }
      WriteCfg w = se.w;
      // after string registration in a session user numbers count the registered labels
      writeSym( c, &s, g, cum, se.syms[i], w, se.w.mode[i], se.w.shuffle, d );
   }
   for( auto &[n, t]: se.lateComments )
   {
      c.check( g.gdxSymbolAddComment( n, t.c_str() ) == 1, "comment for symbol ", n, " refused" );
      d.syms[n - 1].comments.push_back( t );
   }
}

VP_PROP( C12, append, "at least two sessions on one file with data in at least two of them", 8000, 300000 )
{
   GenOpt o;
   o.maxRecs = 120;
   std::vector<std::string> pool, texts;
   std::set<std::string> seenUel, seenTxt { "" }, names;
   std::vector<Acr> acr, acrDone;
   std::vector<SymPlan> all;
   int n = s.range( 2, 5 );
   std::vector<Session> ses;
   for( int k = 0; k < n; k++ ) ses.push_back( genSession( s, k, pool, seenUel, texts, seenTxt, acr, names, all, o ) );
   std::string fn = c.path( "a.gdx" );
   int compr = s.range( 0, 1 );
   Doc d;
   Plan cum;
   std::unique_ptr<TGXFileObj> g;
   int withData {};
   for( int k = 0; k < n; k++ )
   {
      if( !g || s.flip() ) g = mkUsed( c, s );
      int err = -1;
      if( k == 0 )
         openWrite( c, *g, fn, compr );
      else
      {
         c.check( g->gdxOpenAppend( fn.c_str(), "vp2", err ) == 1 && err == 0, "append refused, error ", err );
         checkMeta( c, *g, d );// old declarations are visible while appending
         checkAcr( c, *g, acrDone );
         int fv = -1, cl = -1;
         c.check( g->gdxFileInfo( fv, cl ) == 1 && fv == 7 && cl == compr, "file info while appending: ", fv, " ", cl );
      }
      runSession( c, s, *g, ses[k], cum, acrDone, d );
      closeOk( c, *g );
      bool data = false;
      for( auto &y: ses[k].syms ) data |= !y.recs.empty();
      withData += data;
      if( k < n - 1 && s.chance( 1, 2 ) ) continue;
      auto h = mkUsed( c, s );
      openRead( c, *h, fn );
      checkMeta( c, *h, d );
      checkAcr( c, *h, acrDone );
      checkData( c, *h, d );
      c.check( h->gdxErrorCount() == 0, "errors counted while reading" );
      closeOk( c, *h );
   }
   c.nontrivial = withData >= 2;
   c.label( "sessions", n );
   c.label( "symbols", all.size() );
   c.label( compr ? "compressed" : "plain" );
   c.desc = std::to_string( n ) + " sessions, " + std::to_string( all.size() ) + " symbols, " + std::to_string( pool.size() ) + " labels, " + std::to_string( texts.size() ) + " texts, " + std::to_string( acr.size() ) + " acronyms" + ( compr ? ", compressed" : "" );
}

// An append session with regular domains over sets of earlier sessions.
VP_PROP( C12, domains, "a regular domain names a set written in an earlier session", 4000, 120000 )
{
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.range( 0, 1 ) );
   int nl = s.range( 2, 12 );
   c.check( g->gdxUELRegisterRawStart() == 1, "register" );
   for( int i = 1; i <= nl; i++ )
   {
      std::string l = "e" + std::to_string( i );
      c.check( g->gdxUELRegisterRaw( l.c_str() ) == 1, "register" );
      d.addUel( l );
   }
   c.check( g->gdxUELRegisterDone() == 1, "register" );
   int sess = s.range( 2, 4 );
   std::vector<int> sets;// symbol numbers usable as domains
   std::map<int, std::set<int>> elems;
   std::set<int> thisSession;
   bool old = false;
   for( int k = 0; k < sess; k++ )
   {
      int err;
      if( k )
      {
         g = mkUsed( c, s );
         c.check( g->gdxOpenAppend( fn.c_str(), "x", err ) == 1 && !err, "append refused ", err );
         thisSession.clear();
      }
      int ns = s.range( 1, 3 );
      for( int i = 0; i < ns; i++ )
      {
         Sym y;
         y.name = "s" + std::to_string( d.syms.size() );
         int no = (int) d.syms.size() + 1;
         if( !sets.empty() && s.chance( 1, 5 ) )
         {
            int t = s.pick( sets );
            y.type = GMS_DT_ALIAS;
            y.aliasOf = t;
            y.dim = 1;
            y.user = t;
            y.expl = "Aliased with " + d.syms[t - 1].name;
            c.check( g->gdxAddAlias( y.name.c_str(), d.syms[t - 1].name.c_str() ) == 1, "alias refused" );
            d.syms.push_back( y );
            sets.push_back( no );
            elems[no] = elems[t];
            if( thisSession.count( t ) ) thisSession.insert( no );
            continue;
         }
         y.type = s.flip() ? GMS_DT_SET : GMS_DT_PAR;
         y.dim = y.type == GMS_DT_SET ? 1 : s.range( 1, 3 );
         int mode = s.range( 0, 1 );
         c.check( ( mode ? g->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, 0 ) : g->gdxDataWriteStrStart( y.name.c_str(), "", y.dim, y.type, 0 ) ) == 1, "start" );
         std::vector<int> dom( y.dim, 0 );
         bool reg = s.chance( 3, 4 ), any = false;
         if( reg )
         {
            const char *dn[MAXDIM];
            for( int p = 0; p < y.dim; p++ )
            {
               dom[p] = sets.empty() || s.chance( 1, 4 ) ? 0 : s.pick( sets );
               dn[p] = dom[p] ? d.syms[dom[p] - 1].name.c_str() : "*";
               y.dom.push_back( dn[p] );
               any |= dom[p] > 0;
               old |= dom[p] > 0 && !thisSession.count( dom[p] );
            }
            c.check( g->gdxSymbolSetDomain( dn ) == 1, "domain refused in session ", k );
            y.domKind = 3;
         }
         std::map<Key, V5> m;
         int nr = s.range( 0, 8 );
         for( int r = 0; r < nr; r++ )
         {
            Key key;
            for( int p = 0; p < y.dim; p++ )
            {// stay inside the domain: the record must be kept whether or not membership is still checked
               std::vector<int> cand;
               for( int e = 1; e <= nl; e++ )
                  if( !dom[p] || elems[dom[p]].count( e ) ) cand.push_back( e );
               if( cand.empty() ) break;
               key.push_back( s.pick( cand ) );
            }
            if( (int) key.size() == y.dim ) m[key] = V5 { y.type == GMS_DT_SET ? 0.0 : (double) s.range( 1, 9 ) };
         }
         for( auto &[key, v]: m )
         {
            const char *sk[MAXDIM];
            for( int p = 0; p < y.dim; p++ ) sk[p] = d.uels[key[p] - 1].c_str();
            c.check( ( mode ? g->gdxDataWriteRaw( key.data(), v.data() ) : g->gdxDataWriteStr( sk, v.data() ) ) == 1, "record ", keyStr( key ), " refused" );
            y.recs.push_back( { key, v } );
         }
         c.check( g->gdxDataWriteDone() == 1 && g->gdxDataErrorCount() == 0, "records inside the domain reported as errors" );
         (void) any;
         d.syms.push_back( y );
         if( y.type == GMS_DT_SET )
         {
            sets.push_back( no );
            for( auto &r: y.recs ) elems[no].insert( r.k[0] );
            thisSession.insert( no );
         }
      }
      closeOk( c, *g );
      auto h = mkUsed( c, s );
      openRead( c, *h, fn );
      checkMeta( c, *h, d );
      checkData( c, *h, d );
      for( size_t i = 1; i <= d.syms.size(); i++ )
      {
         if( d.syms[i - 1].domKind != 3 ) continue;
         int dn[MAXDIM];
         c.check( h->gdxSymbolGetDomain( (int) i, dn ) == 1, "domain" );
         for( int p = 0; p < d.syms[i - 1].dim; p++ ) c.check( dn[p] == ( d.syms[i - 1].dom[p] == "*" ? 0 : d.findSym( d.syms[i - 1].dom[p] ) ), "domain number ", dn[p] );
      }
   }
   c.nontrivial = old;
   c.desc = std::to_string( sess ) + " sessions, " + std::to_string( d.syms.size() ) + " symbols";
}

// ------------------------------------------------------------------ C13
static bool envFlag( const char *v ) { return v && v[0] && v[0] != '0' && v[0] != 'n' && v[0] != 'N'; }

VP_PROP( C13, documents, "the same document with data was written plain and compressed and compared completely", 1200, 100000 )
{
   GenOpt o;
   o.rich = true;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   Doc docs[2];
   int how = s.range( 0, 2 );
   static const char *vals[] = { nullptr, "", "0", "n", "No", "00", "1", "Y", "yes", "C", "true", "01" };
   for( int k = 0; k < 2; k++ )
   {
      std::string fn = c.path( k ? "c.gdx" : "p.gdx" );
      auto g = mkUsed( c, s );
      int err = -1;
      const char *ev = vals[k ? s.range( 6, 10 ) : s.range( 0, 5 )];
      if( how == 0 )
         openWrite( c, *g, fn, k );
      else
      {
         // requested through the environment; conversion at close has nothing to do then
         if( ev ) setenv( "GDXCOMPRESS", ev, 1 );
         else
            unsetenv( "GDXCOMPRESS" );
         if( how == 2 ) g->gdxAutoConvert( 1 );
         int r = g->gdxOpenWrite( fn.c_str(), "vp", err );
         c.check( r == 1 && err == 0, "open for writing failed ", err );
         c.check( envFlag( ev ) == ( k == 1 ), "test table" );
      }
      int fv = -1, cl = -1;
      c.check( g->gdxFileInfo( fv, cl ) == 1 && cl == k, "compression reported while writing: ", cl, " expected ", k );
      writePlan( c, s, *g, p, w, docs[k] );
      int r = g->gdxClose();
      unsetenv( "GDXCOMPRESS" );
      c.check( r == 0, "close returned ", r );
   }
   for( int k = 0; k < 2; k++ )
   {
      auto g = mkUsed( c, s );
      openRead( c, *g, c.path( k ? "c.gdx" : "p.gdx" ) );
      int fv = -1, cl = -1;
      c.check( g->gdxFileInfo( fv, cl ) == 1 && cl == k, "compression reported while reading: ", cl, " expected ", k );
      checkMeta( c, *g, docs[k] );
      checkData( c, *g, docs[k] );
   }
   for( auto &y: p.syms )
      if( y.recs.size() > 1 ) c.nontrivial = true;
   c.label( how == 0 ? "explicit" : "environment" );
   c.desc = p.describe();
}

// The form asked for by the environment is produced by the converter, which close calls exactly when it is needed.
// A stand-in below the scratch directory records the calls.
VP_PROP( C13, convert, "a file was written or appended to and closed with automatic conversion while the environment asks for some form", 500, 20000 )
{
   static const char *names[] = { "a.gdx", "a b.gdx", "a  b c.gdx", "a$HOME.gdx", "a'b.gdx", "a\"b c.gdx", "a;b.gdx", "a&b.gdx", "a(b).gdx", "a*.gdx", "a\\b.gdx", "#a.gdx", "a`b`.gdx", "\xc3\xa4.gdx" };
   std::string fn = c.path( names[s.chance( 1, 2 ) ? 0 : s.range( 0, sizeof( names ) / sizeof( *names ) - 1 )] );
   std::string bin = c.path( "bin" ), log = c.path( "calls" );
   mkdir( bin.c_str(), 0777 );
   const int rc = s.chance( 1, 4 ) ? s.pick( std::vector<int> { 1, 2, 13, 100, 126, 127, 255 } ) : 0;
   const bool absent = s.chance( 1, 12 );
   if( !absent )
   {
      std::ofstream o( bin + "/gdxcopy" );
      o << "#!/bin/sh\nfor a; do printf '<%s>' \"$a\" >> '" << log << "'; done\nprintf '\\n' >> '" << log << "'\nexit " << rc << "\n";
   }
   chmod( ( bin + "/gdxcopy" ).c_str(), 0755 );
   struct Env {
      std::string path;
      Env() { path = getenv( "PATH" ) ? getenv( "PATH" ) : ""; }
      ~Env()
      {
         setenv( "PATH", path.c_str(), 1 );
         unsetenv( "GDXCONVERT" );
         unsetenv( "GDXCOMPRESS" );
      }
   } env;
   setenv( "PATH", ( bin + ":" + env.path ).c_str(), 1 );
   std::string trace;
   Doc d;
   bool have = false, compressed = false;
   const int sess = s.range( 1, 3 );
   auto g = mk();
   bool conv = false;// mk() turns it off
   for( int k = 0; k < sess; k++ )
   {
      static const char *cv[] = { nullptr, "", "V7", "v7", " V7 ", "V5", "v5", "V6", "v6" };
      static const char *zv[] = { nullptr, "", "0", "n", "No", "1", "Y", "yes", "C" };
      const char *e1 = cv[s.range( 0, 8 )], *e2 = zv[s.range( 0, 8 )];
      if( e1 ) setenv( "GDXCONVERT", e1, 1 );
      else
         unsetenv( "GDXCONVERT" );
      if( e2 ) setenv( "GDXCOMPRESS", e2, 1 );
      else
         unsetenv( "GDXCOMPRESS" );
      if( s.chance( 3, 4 ) )
      {
         const bool nv = s.chance( 4, 5 );
         const int was = g->gdxAutoConvert( nv );
         c.check( ( was != 0 ) == conv, "automatic conversion was ", conv, " but ", was, " is returned" );
         conv = nv;
      }
      unlink( log.c_str() );
      int err = -1, kind = have ? s.range( 0, 3 ) : s.range( 0, 1 ), r = 0;
      const bool want = s.flip();
      switch( kind )
      {
         case 0: r = g->gdxOpenWriteEx( fn.c_str(), "vp", compressed = want, err ); break;
         case 1:
            r = g->gdxOpenWrite( fn.c_str(), "vp", err );
            compressed = envFlag( e2 );
            break;
         case 2: r = g->gdxOpenAppend( fn.c_str(), "vp", err ); break;
         default: r = g->gdxOpenRead( fn.c_str(), err ); break;
      }
      c.check( r == 1 && err == 0, "open ", kind, " failed ", err );
      if( kind < 2 ) d = Doc();
      if( kind < 3 )
      {
         Sym y;
         y.name = "s" + std::to_string( k );
         y.dim = 0;
         y.type = GMS_DT_PAR;
         double v[GMS_VAL_MAX] { 3.25 + k };
         c.check( g->gdxDataWriteStrStart( y.name.c_str(), "", 0, GMS_DT_PAR, 0 ) && g->gdxDataWriteStr( nullptr, v ) && g->gdxDataWriteDone(), "write" );
         Rec rec {};
         rec.v[0] = v[0];
         y.recs.push_back( rec );
         d.syms.push_back( y );
      }
      have = true;
      r = g->gdxClose();
      std::string form = "V7";
      if( e1 && std::string( e1 ).find_first_not_of( ' ' ) != std::string::npos )
      {
         form = upper( e1 );
         form = form.substr( form.find_first_not_of( ' ' ) );
         form = form.substr( 0, form.find_last_not_of( ' ' ) + 1 );
      }
      if( form != "V5" ) form += envFlag( e2 ) ? "C" : "U";
      const bool call = conv && kind < 3 && form != std::string( "V7" ) + ( compressed ? "C" : "U" );
      std::string exp = call && !absent ? "<-" + form + "><-Replace><" + fn + ">\n" : "", got;
      {
         std::ifstream i( log );
         got.assign( std::istreambuf_iterator<char>( i ), {} );
      }
      trace += " session " + std::to_string( kind ) + " GDXCONVERT=" + ( e1 ? e1 : "-" ) + " GDXCOMPRESS=" + ( e2 ? e2 : "-" ) + ( conv ? " auto" : "" );
      c.check( got == exp, "close called the converter with ", q( got ), " expected ", q( exp ), trace );
      const bool fails = call && ( absent || rc );
      c.check( ( r != 0 ) == fails, "close returned ", r, call ? " after calling the converter" : "", fails ? " which failed" : "", trace );
      c.nontrivial |= conv && kind < 3;
      c.label( call ? "converter called" : "no conversion" );
      // what the converter was given is complete
      auto h = mk();
      openRead( c, *h, fn );
      int fv = -1, cl = -1;
      c.check( h->gdxFileInfo( fv, cl ) == 1 && cl == (int) compressed, "compression ", cl );
      checkMeta( c, *h, d );
      checkData( c, *h, d );
   }
   c.desc = fn.substr( fn.rfind( '/' ) + 1 ) + trace + " converter " + ( absent ? "absent" : std::to_string( rc ) );
}

// Sizes at the block limits, any compressibility, random access between symbols.
VP_PROP( C13, blocks, "a symbol whose encoded data spans more than one block", 160, 24000 )
{
   std::string fn = c.path( "a.gdx" );
   Doc d;
   int ns = s.range( 1, 4 );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, 1 );
   int nl = s.weighted( { 3, 1 } ) ? 6000 : 300;
   int llen = s.range( 1, 57 );
   c.check( g->gdxUELRegisterRawStart() == 1, "register" );
   uint64_t st = s.bits32();
   bool rnd = s.flip();
   for( int i = 1; i <= nl; i++ )
   {
      std::string l = std::to_string( i );
      for( int k = 0; k < llen; k++ ) l += rnd ? char( 'A' + splitmix( st ) % 26 ) : 'x';
      c.check( g->gdxUELRegisterRaw( l.c_str() ) == 1, "register" );
      d.addUel( l );
   }
   c.check( g->gdxUELRegisterDone() == 1, "register" );
   // texts of random bytes: blocks of up to a few thousand bytes that do not shrink
   std::vector<std::string> txt;
   if( s.chance( 2, 3 ) )
   {
      int nt = s.range( 1, 24 );
      uint64_t ts = s.bits32();
      for( int i = 0; i < nt; i++ )
      {
         std::string t;
         int len = s.flip() ? 255 : s.range( 1, 255 );
         while( (int) t.size() < len )
         {
            char ch = char( 32 + splitmix( ts ) % 224 );
            if( ch != '"' && ch != '\'' ) t += ch;
         }
         t += char( 'A' + i );
         if( t.size() > 255 ) t.erase( 0, 1 );
         int nr = -1;
         c.check( g->gdxAddSetText( t.c_str(), nr ) == 1 && nr == i + 1, "text number ", nr, " expected ", i + 1 );
         txt.push_back( t );
         d.texts.push_back( t );
      }
   }
   for( int i = 0; i < ns; i++ )
   {
      Sym y;
      y.name = "p" + std::to_string( i );
      y.expl = "t";
      y.type = s.flip() ? GMS_DT_VAR : GMS_DT_PAR;
      y.dim = s.range( 1, 3 );
      int nv = nvals( y.type );
      int valKind = s.range( 0, 3 );// 0 constant, 1 coded, 2 random, 3 mixed
      int per = 1 + ( valKind == 0 || valKind == 2 ? nv * 9 : nv );
      int blocks = s.range( 1, s.tier ? 9 : 4 );
      int n = std::max( 0, ( blocks * 32768 ) / per + s.range( -4, 4 ) );
      if( s.chance( 1, 6 ) ) n = s.range( 0, 5 );
      int64_t maxn = 1;
      for( int k = 0; k < y.dim; k++ ) maxn *= nl;
      if( n > maxn ) n = (int) maxn;
      c.check( g->gdxDataWriteRawStart( y.name.c_str(), "t", y.dim, y.type, 0 ) == 1, "start" );
      Key k( y.dim, 1 );
      uint64_t vs = s.bits32();
      for( int r = 0; r < n; r++ )
      {
         V5 v {};
         for( int q = 0; q < nv; q++ )
         {
            int kind = valKind == 3 ? (int) ( splitmix( vs ) % 3 ) : valKind;
            v[q] = kind == 0 ? 1234.5678 : ( kind == 1 ? 1.0 : double( splitmix( vs ) % 1000000007 ) / 3.0 + 0.123 );
         }
         c.check( g->gdxDataWriteRaw( k.data(), v.data() ) == 1, "write" );
         y.recs.push_back( { k, v } );
         for( int p = y.dim - 1; p >= 0; p-- )
         {
            if( ++k[p] <= nl ) break;
            k[p] = 1;
         }
      }
      c.check( g->gdxDataWriteDone() == 1 && g->gdxDataErrorCount() == 0, "done" );
      if( n * per > 32768 ) c.nontrivial = true;
      c.label( "records", n );
      c.desc += y.name + ":" + std::to_string( y.dim ) + "x" + std::to_string( n ) + " kind " + std::to_string( valKind ) + " ";
      d.syms.push_back( y );
   }
   closeOk( c, *g );
   auto h = mk();
   openRead( c, *h, fn );
   checkMeta( c, *h, d );
   for( size_t i = 0; i < txt.size(); i++ )
   {
      char b[256];
      int nd = -1;
      c.check( h->gdxGetElemText( (int) i + 1, b, nd ) == 1 && txt[i] == b, "text ", i + 1, " of ", txt.size(), " is ", q( b ), " expected ", q( txt[i] ) );
   }
   // symbols in any order, some abandoned part-way
   int reads = s.range( 1, 5 );
   for( int i = 0; i < reads; i++ )
   {
      int no = s.range( 1, ns );
      const Sym &y = d.syms[no - 1];
      int nr = -1;
      c.check( h->gdxDataReadRawStart( no, nr ) == 1 && nr == (int) y.recs.size(), "announced ", nr, " records of ", y.name, ", expected ", y.recs.size() );
      int stop = s.flip() ? (int) y.recs.size() + 1 : s.range( 0, (int) y.recs.size() );
      int k[MAXDIM], fd;
      double v[5];
      for( int r = 0; r < stop; r++ )
      {
         int ok = h->gdxDataReadRaw( k, v, fd );
         if( r == (int) y.recs.size() )
         {
            c.check( ok == 0, "record too many in ", y.name );
            break;
         }
         c.check( ok == 1, "record ", r + 1, " of ", y.recs.size(), " of ", y.name, " missing" );
         c.check( Key( k, k + y.dim ) == y.recs[r].k, "record ", r + 1, " of ", y.name, " has key ", keyStr( Key( k, k + y.dim ) ), " expected ", keyStr( y.recs[r].k ) );
         for( int q = 0; q < nvals( y.type ); q++ ) c.check( bitsOf( v[q] ) == bitsOf( y.recs[r].v[q] ), "record ", r + 1, " of ", y.name, " value ", hexd( v[q] ), " expected ", hexd( y.recs[r].v[q] ) );
      }
      c.check( h->gdxDataReadDone() == 1, "done" );
   }
}
