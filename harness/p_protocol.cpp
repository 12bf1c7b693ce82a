// C14 call protocol: every call in every state, legal or not.
#include "model.hpp"
#include <iostream>
using namespace vp;

enum M { N, WI, WDR, WDM, WDS, WR, WM, WS, RI, RR, RM, RS, RSL, RF, ER, EM, ES, NMODES };
static const char *mname[] = { "closed", "write", "write-raw-start", "write-map-start", "write-str-start", "write-raw", "write-map", "write-str", "read", "read-raw", "read-map", "read-str", "slice", "filter", "register-raw", "register-map", "register-str" };
using MS = std::set<int>;
static const MS anyW { WI, WDR, WDM, WDS, WR, WM, WS }, wData { WDR, WDM, WDS, WR, WM, WS }, rStart { RI, RR, RM, RS };

enum F { fStrStart, fMapStart, fRawStart, fBndStart, fStr, fMap, fRaw, fWDone, fRStr0, fRMap0, fRRaw0, fRFil0, fRStr, fRMap, fRRaw, fRDone, fFast, fFastEx, fFastFilt, fSl0, fSl, fSlU,
         fDomEl, fIdxLen, fSetDom, fRegR0, fRegM0, fRegS0, fRegR, fRegM, fRegS, fRegDone, fAlias, fComment, fFilEx, fFil0, fFil, fFilDone, fErrRec, fOpenW, fOpenR, fOpenA, fClose, NF };
static const char *fname[] = { "DataWriteStrStart", "DataWriteMapStart", "DataWriteRawStart", "DataWriteRawStartKeyBounds", "DataWriteStr", "DataWriteMap", "DataWriteRaw", "DataWriteDone", "DataReadStrStart", "DataReadMapStart", "DataReadRawStart", "DataReadFilteredStart", "DataReadStr", "DataReadMap", "DataReadRaw", "DataReadDone", "DataReadRawFast", "DataReadRawFastEx", "DataReadRawFastFilt", "DataReadSliceStart", "DataReadSlice", "DataSliceUELS",
                               "GetDomainElements", "SymbIndxMaxLength", "SymbolSetDomain", "UELRegisterRawStart", "UELRegisterMapStart", "UELRegisterStrStart", "UELRegisterRaw", "UELRegisterMap", "UELRegisterStr", "UELRegisterDone", "AddAlias", "SymbolAddComment", "FilterExists", "FilterRegisterStart", "FilterRegister", "FilterRegisterDone", "DataErrorRecord", "OpenWrite", "OpenRead", "OpenAppend", "Close" };

static bool legal( int f, int m )
{
   static const std::vector<MS> t = [] {
      std::vector<MS> v( NF );
      v[fStrStart] = v[fMapStart] = v[fRawStart] = v[fBndStart] = { WI };
      v[fStr] = { WDS, WS };
      v[fMap] = { WDM, WM };
      v[fRaw] = { WDR, WR };
      v[fWDone] = wData;
      for( int f: { fRStr0, fRMap0, fRRaw0, fRFil0, fFast, fFastEx, fFastFilt, fSl0, fDomEl } ) v[f] = rStart;
      v[fRStr] = { RS };
      v[fRMap] = { RM };
      v[fRRaw] = { RR };
      v[fRDone] = { RI, RR, RM, RS, RSL };
      v[fSl] = v[fSlU] = { RSL };
      v[fIdxLen] = { RI };
      v[fSetDom] = { WDR, WDM, WDS };
      v[fRegR0] = { WI };
      v[fRegM0] = v[fRegS0] = { RI, WI };
      v[fRegR] = { ER };
      v[fRegM] = { EM };
      v[fRegS] = { ES };
      v[fRegDone] = { ER, EM, ES };
      v[fAlias] = v[fComment] = anyW;
      v[fFilEx] = rStart;
      v[fFil0] = { RI };
      v[fFil] = v[fFilDone] = { RF };
      v[fErrRec] = { RI, WI, RM, WR, WM, WS };
      v[fOpenW] = v[fOpenR] = v[fOpenA] = { N };
      for( int i = 0; i < NMODES; i++ ) v[fClose].insert( i );
      return v;
   }();
   return t[f].count( m ) > 0;
}

static int cbCount;
static void cb3( const int *, const double * ) { cbCount++; }
static int cb5( const int *, const double *, int, void * ) { cbCount++; return 1; }
static int cb4( const int *, const double *, void * ) { cbCount++; return 1; }
static void cbD( int, int, void * ) { cbCount++; }

struct Quiet {// the library reports misuse on standard output
   std::ostringstream o;
   std::streambuf *b;
   Quiet() : b( std::cout.rdbuf( o.rdbuf() ) ) {}
   ~Quiet() { std::cout.rdbuf( b ); }
};

struct Drv {
   Ctx &c;
   Src &s;
   std::unique_ptr<TGXFileObj> g;
   int m { N };
   bool writing {};
   Doc *d {};// content of the open file
   // write side
   int cur { -1 };
   std::map<Key, V5> acc;
   std::vector<Rec> rawRecs;
   std::map<std::string, int> umap;// label -> user number in this session
   std::map<int, std::string> unum;
   int uniq {};
   // read side
   int rsy {}, rpos {};
   bool strict {}, expanded {};
   int refused {}, legalOps {};
   std::string otherFile;// a good file that may be named in refused opens
   std::string trace;

   Drv( Ctx &c_, Src &s_ ) : c( c_ ), s( s_ ), g( mk() ) {}

   int clearErr()
   {
      int n = 0;
      while( g->gdxGetLastError() && n < 5 ) n++;
      return n;
   }

   // calls the function with plausible arguments where it is not allowed
   int call( int f )
   {
      static char kb[MAXDIM][256];
      char *kp[MAXDIM];
      const char *ck[MAXDIM];
      int ik[MAXDIM], fd, nr, x;
      double v[5] { 1, 2, 3, 4, 5 };
      for( int i = 0; i < MAXDIM; i++ )
      {
         kb[i][0] = 0;
         kp[i] = kb[i];
         ck[i] = "e1";
         ik[i] = 1;
      }
      int lo[MAXDIM], hi[MAXDIM], cnt[MAXDIM];
      for( int i = 0; i < MAXDIM; i++ ) lo[i] = 1, hi[i] = 9;
      int sy = d && !d->syms.empty() ? s.range( 1, (int) d->syms.size() ) : 1;
      std::string nn = "new" + std::to_string( uniq );
      const char *star[MAXDIM];
      for( auto &p: star ) p = "*";
      switch( f )
      {
         case fStrStart: return g->gdxDataWriteStrStart( nn.c_str(), "x", 1, 1, 0 );
         case fMapStart: return g->gdxDataWriteMapStart( nn.c_str(), "x", 1, 1, 0 );
         case fRawStart: return g->gdxDataWriteRawStart( nn.c_str(), "x", 1, 1, 0 );
         case fBndStart: return g->gdxDataWriteRawStartKeyBounds( nn.c_str(), "x", 1, 1, 0, lo, hi );
         case fStr: return g->gdxDataWriteStr( ck, v );
         case fMap: return g->gdxDataWriteMap( ik, v );
         case fRaw: return g->gdxDataWriteRaw( ik, v );
         case fWDone: return g->gdxDataWriteDone();
         case fRStr0: return g->gdxDataReadStrStart( sy, nr );
         case fRMap0: return g->gdxDataReadMapStart( sy, nr );
         case fRRaw0: return g->gdxDataReadRawStart( sy, nr );
         case fRFil0:
            for( int &q: ik ) q = -1;
            return g->gdxDataReadFilteredStart( sy, ik, nr );
         case fRStr: return g->gdxDataReadStr( kp, v, fd );
         case fRMap: return g->gdxDataReadMap( 1, ik, v, fd );
         case fRRaw: return g->gdxDataReadRaw( ik, v, fd );
         case fRDone: return g->gdxDataReadDone();
         case fFast: return g->gdxDataReadRawFast( sy, cb3, nr );
         case fFastEx: return g->gdxDataReadRawFastEx( sy, cb5, nr, nullptr );
         case fFastFilt:
            for( auto &p: ck ) p = "";
            return g->gdxDataReadRawFastFilt( sy, ck, cb4 );
         case fSl0: return g->gdxDataReadSliceStart( sy, cnt );
         case fSl: return g->gdxDataReadSlice( ck, x, cb3 );
         case fSlU:
            for( int &q: ik ) q = 0;
            return g->gdxDataSliceUELS( ik, kp );
         case fDomEl: return g->gdxGetDomainElements( sy, 1, -1, cbD, nr, nullptr );
         case fIdxLen: return g->gdxSymbIndxMaxLength( sy, cnt );
         case fSetDom: return g->gdxSymbolSetDomain( star );
         case fRegR0: return g->gdxUELRegisterRawStart();
         case fRegM0: return g->gdxUELRegisterMapStart();
         case fRegS0: return g->gdxUELRegisterStrStart();
         case fRegR: return g->gdxUELRegisterRaw( "refused" );
         case fRegM: return g->gdxUELRegisterMap( 4711, "refused" );
         case fRegS: return g->gdxUELRegisterStr( "refused", x );
         case fRegDone: return g->gdxUELRegisterDone();
         case fAlias: return g->gdxAddAlias( "*", nn.c_str() );
         case fComment: return g->gdxSymbolAddComment( sy, "refused" );
         case fFilEx: return g->gdxFilterExists( 1 );
         case fFil0: return g->gdxFilterRegisterStart( 1 );
         case fFil: return g->gdxFilterRegister( 1 );
         case fFilDone: return g->gdxFilterRegisterDone();
         case fErrRec: return s.flip() ? g->gdxDataErrorRecord( 1, ik, v ) : g->gdxDataErrorRecordX( 1, ik, v );
         default: break;
      }
      int err = -1, r;
      std::string fn = otherFile.empty() ? c.path( "never.gdx" ) : otherFile;
      if( f == fOpenW ) r = s.flip() ? g->gdxOpenWrite( fn.c_str(), "x", err ) : g->gdxOpenWriteEx( fn.c_str(), "x", 1, err );
      else if( f == fOpenR )
         r = s.flip() ? g->gdxOpenRead( fn.c_str(), err ) : g->gdxOpenReadEx( fn.c_str(), s.range( 0, 1 ), err );
      else
         r = g->gdxOpenAppend( fn.c_str(), "x", err );
      c.check( err != 0, "a refused open gives no error number" );
      return r;
   }
   void illegal( int f )
   {
      int e0 = g->gdxErrorCount();
      clearErr();
      cbCount = 0;
      if( f == fDomEl && d )
         for( auto &y: d->syms )
            if( y.dim == 0 ) return;// a scalar has none in any state
      int r = call( f );
      auto ctx = [&] { return std::string( fname[f] ) + " in state " + mname[m]; };
      c.check( r == 0, ctx(), " is not refused (", r, ")" );
      c.check( cbCount == 0, ctx(), " delivers records" );
      if( f != fOpenW && f != fOpenR && f != fOpenA )
      {
         c.check( g->gdxErrorCount() > e0, ctx(), " is refused without counting an error" );
         c.check( g->gdxGetLastError() != 0, ctx(), " is refused without an error code" );
         int again = g->gdxGetLastError();
         c.check( again == 0, ctx(), ": error reported twice, second ", again );
      }
      refused++;
      c.log( "refused ", ctx() );
      // In a read session a refused read start may drop what was under way; settle.
      if( !writing && m != N && ( rStart.count( m ) == 0 ) && ( ( f >= fRStr0 && f <= fRFil0 ) || f == fRDone || ( f >= fFast && f <= fSl0 ) || f == fDomEl ) )
      {
         g->gdxDataReadDone();
         clearErr();
         m = RI;
      }
   }
   // ---------------------------------------------------------- legal steps
   std::string anyLabel() { return s.flip() || d->uels.empty() ? "l" + std::to_string( s.range( 0, 20 ) ) : recase( s, s.pick( d->uels ) ); }
   void finishSym()
   {
      if( cur < 0 ) return;
      Sym &y = d->syms[cur];
      if( m == WDM || m == WM || m == WDS || m == WS )
         for( auto &[k, v]: acc ) y.recs.push_back( { k, v } );
      else
         y.recs = rawRecs;
      for( auto &r: y.recs )
         if( y.type == GMS_DT_SET && r.v[0] != 0 ) y.hasText = true;
      acc.clear();
      rawRecs.clear();
      cur = -1;
   }
   V5 vals( const Sym &y )
   {
      V5 v {};
      for( int i = 0; i < nvals( y.type ); i++ ) v[i] = y.type == GMS_DT_SET ? s.range( 0, (int) d->texts.size() - 1 ) : s.range( 1, 99 );
      return v;
   }
   void step( int f )
   {
      legalOps++;
      c.log( "legal ", fname[f], " in state ", mname[m], d && !d->syms.empty() ? " last symbol " + d->syms.back().name + " type " + std::to_string( d->syms.back().type ) + " dim " + std::to_string( d->syms.back().dim ) : "", " rsy ", rsy );
      switch( f )
      {
         case fStrStart:
         case fMapStart:
         case fRawStart:
         case fBndStart:
         {
            Sym y;
            y.name = "y" + std::to_string( uniq++ );
            y.dim = s.weighted( { 1, 4, 3, 1 } );
            y.type = s.range( 0, 3 );
            y.user = s.range( 0, 3 );
            y.expl = "t" + y.name;
            int lo[MAXDIM], hi[MAXDIM];
            for( int i = 0; i < MAXDIM; i++ ) lo[i] = 1, hi[i] = std::max<int>( 1, (int) d->uels.size() );
            int r = f == fStrStart ? g->gdxDataWriteStrStart( y.name.c_str(), y.expl.c_str(), y.dim, y.type, y.user ) : f == fMapStart ? g->gdxDataWriteMapStart( y.name.c_str(), y.expl.c_str(), y.dim, y.type, y.user )
                                                                                                              : f == fRawStart ? g->gdxDataWriteRawStart( y.name.c_str(), y.expl.c_str(), y.dim, y.type, y.user )
                                                                                                                               : g->gdxDataWriteRawStartKeyBounds( y.name.c_str(), y.expl.c_str(), y.dim, y.type, y.user, lo, hi );
            c.check( r == 1, "start of symbol ", y.name, " refused" );
            d->syms.push_back( y );
            cur = (int) d->syms.size() - 1;
            m = f == fStrStart ? WDS : ( f == fMapStart ? WDM : WDR );
            acc.clear();
            rawRecs.clear();
            break;
         }
         case fStr:
         {
            Sym &y = d->syms[cur];
            std::vector<std::string> l;
            const char *p[MAXDIM];
            Key k;
            for( int i = 0; i < y.dim; i++ ) l.push_back( anyLabel() );
            for( int i = 0; i < y.dim; i++ ) p[i] = l[i].c_str(), k.push_back( d->addUel( l[i] ) );
            V5 v = vals( y );
            c.check( g->gdxDataWriteStr( p, v.data() ) == 1, "record refused" );
            acc.emplace( k, v );
            m = WS;
            break;
         }
         case fMap:
         {
            Sym &y = d->syms[cur];
            int ik[MAXDIM] {};
            Key k;
            if( y.dim && unum.empty() ) break;
            for( int i = 0; i < y.dim; i++ )
            {
               auto it = unum.begin();
               std::advance( it, s.range( 0, (int) unum.size() - 1 ) );
               ik[i] = it->first;
               k.push_back( d->findUel( it->second ) );
            }
            V5 v = vals( y );
            c.check( g->gdxDataWriteMap( ik, v.data() ) == 1, "record refused" );
            acc.emplace( k, v );
            m = WM;
            break;
         }
         case fRaw:
         {
            Sym &y = d->syms[cur];
            if( y.dim && d->uels.empty() ) break;
            if( !y.dim && !rawRecs.empty() ) break;
            Key k;
            int ik[MAXDIM] {};
            for( int i = 0; i < y.dim; i++ ) k.push_back( ik[i] = s.range( 1, (int) d->uels.size() ) );
            V5 v = vals( y );
            bool ok = rawRecs.empty() || rawRecs.back().k < k;
            int e0 = g->gdxErrorCount();
            c.check( g->gdxDataWriteRaw( ik, v.data() ) == ( ok ? 1 : 0 ), "raw record ", keyStr( k ), ok ? " refused" : " out of order accepted" );
            if( ok ) rawRecs.push_back( { k, v } );
            else
               c.check( g->gdxErrorCount() > e0, "record out of order not counted" );
            m = WR;
            break;
         }
         case fWDone:
            c.check( g->gdxDataWriteDone() == 1, "done refused" );
            finishSym();
            m = WI;
            break;
         case fSetDom:
         {
            const char *star[MAXDIM];
            for( auto &p: star ) p = "*";
            Sym &y = d->syms[cur];
            c.check( g->gdxSymbolSetDomain( star ) == 1, "domain refused" );
            if( y.dim ) y.domKind = 3;
            else
               y.domKind = 0;// a scalar: not looked at
            m = m == WDR ? WR : ( m == WDM ? WM : WS );
            break;
         }
         case fRegR0:
            c.check( g->gdxUELRegisterRawStart() == 1, "registration refused" );
            m = ER;
            break;
         case fRegM0:
            c.check( g->gdxUELRegisterMapStart() == 1, "registration refused" );
            m = EM;
            break;
         case fRegS0:
            c.check( g->gdxUELRegisterStrStart() == 1, "registration refused" );
            m = ES;
            break;
         case fRegR:
         {
            std::string l = anyLabel();
            c.check( g->gdxUELRegisterRaw( l.c_str() ) == 1, "label refused" );
            d->addUel( l );
            break;
         }
         case fRegM:
         {
            std::string l = anyLabel();
            int u = s.range( 1, 30 );
            if( !writing ) l = "r" + l;// keep the file's own labels as they are
            bool hasL = umap.count( upper( l ) ), hasU = unum.count( u );
            bool ok = ( !hasL && !hasU ) || ( hasL && umap[upper( l )] == u );
            int r = g->gdxUELRegisterMap( u, l.c_str() );
            if( expanded )
            {// numbers were handed out by an expanding read
               if( r ) umap[upper( l )] = u, unum[u] = upper( l );
               break;
            }
            c.check( r == ( ok ? 1 : 0 ), "label ", l, " with number ", u, ok ? " refused" : " accepted" );
            if( ok )
            {
               umap[upper( l )] = u;
               unum[u] = upper( l );
               if( writing ) d->addUel( l );
            }
            break;
         }
         case fRegS:
         {
            std::string l = writing ? anyLabel() : "q" + std::to_string( s.range( 0, 9 ) );
            int nr = -1;
            c.check( g->gdxUELRegisterStr( l.c_str(), nr ) == 1, "label refused" );
            if( writing ) d->addUel( l );
            auto it = umap.find( upper( l ) );
            if( it != umap.end() ) c.check( it->second == nr, "label ", l, " has number ", nr, " expected ", it->second );
            else
            {
               c.check( !unum.count( nr ) && nr >= 1, "new label ", l, " gets number ", nr, " again" );
               umap[upper( l )] = nr;
               unum[nr] = upper( l );
            }
            break;
         }
         case fRegDone:
            c.check( g->gdxUELRegisterDone() == 1, "registration does not finish" );
            m = writing ? WI : RI;
            break;
         case fAlias:
         {
            std::vector<std::string> t { "*" };
            std::vector<int> tn { 0 };
            for( size_t i = 0; i < d->syms.size(); i++ )
               if( d->syms[i].type == GMS_DT_SET || d->syms[i].type == GMS_DT_ALIAS ) t.push_back( d->syms[i].name ), tn.push_back( (int) i + 1 );
            int k = s.range( 0, (int) t.size() - 1 );
            Sym y;
            y.name = "y" + std::to_string( uniq++ );
            y.type = GMS_DT_ALIAS;
            y.aliasOf = tn[k];
            y.user = tn[k];
            y.dim = tn[k] ? d->syms[tn[k] - 1].dim : 1;
            y.expl = "Aliased with " + t[k];
            c.check( g->gdxAddAlias( t[k].c_str(), y.name.c_str() ) == 1, "alias refused" );
            d->syms.push_back( y );
            break;
         }
         case fComment:
         {
            int n = s.range( 0, (int) d->syms.size() );
            int t = n ? n - 1 : cur;
            std::string x = "c" + std::to_string( s.range( 0, 99 ) );
            if( t < 0 )
            {
               // no current symbol: nothing may be changed
               c.check( g->gdxSymbolAddComment( n, x.c_str() ) == 0, "comment for no symbol accepted" );
               break;
            }
            c.check( g->gdxSymbolAddComment( n, x.c_str() ) == 1, "comment refused" );
            d->syms[t].comments.push_back( x );
            break;
         }
         case fErrRec:
         {
            int k[MAXDIM];
            double v[5];
            int n = g->gdxDataErrorCount();
            c.check( g->gdxDataErrorRecord( n + 1, k, v ) == 0, "error record beyond the last" );
            break;
         }
         // ---- read side
         case fRStr0:
         case fRMap0:
         case fRRaw0:
         case fRFil0:
         {
            int nr = -1;
            if( s.chance( 1, 6 ) || d->syms.empty() )
            {
               int bad = s.flip() ? -1 : (int) d->syms.size() + 1;
               int ik[MAXDIM];
               for( int &q: ik ) q = -1;
               int r = f == fRStr0 ? g->gdxDataReadStrStart( bad, nr ) : f == fRMap0 ? g->gdxDataReadMapStart( bad, nr )
                                                                 : f == fRRaw0   ? g->gdxDataReadRawStart( bad, nr )
                                                                                 : g->gdxDataReadFilteredStart( bad, ik, nr );
               c.check( r == 0, "read of missing symbol ", bad, " accepted" );
               m = RI;
               break;
            }
            rsy = s.range( 1, (int) d->syms.size() );
            int t = target( rsy );
            int r;
            if( f == fRStr0 ) r = g->gdxDataReadStrStart( rsy, nr ), m = RS;
            else if( f == fRRaw0 )
               r = g->gdxDataReadRawStart( rsy, nr ), m = RR;
            else if( f == fRMap0 )
               r = g->gdxDataReadMapStart( rsy, nr ), m = RM;
            else
            {
               int ik[MAXDIM];
               for( int &q: ik ) q = -1;
               r = g->gdxDataReadFilteredStart( rsy, ik, nr );
               m = RM;
            }
            c.check( r == 1, fname[f], " refused" );
            strict = f == fRMap0;// only labels with user numbers come through
            if( f == fRFil0 ) expanded = true;
            if( strict ) c.check( nr >= 0 && nr <= count( t ), "announced ", nr, " records of ", count( t ) );
            else
               c.check( nr == count( t ), "announced ", nr, " records, expected ", count( t ) );
            rpos = 0;
            break;
         }
         case fRStr:
         case fRRaw:
         case fRMap:
         {
            int t = target( rsy ), dim = d->syms[rsy - 1].dim;
            StrKeys sk;
            int ik[MAXDIM], fd = -9;
            V5 v {};
            int r = f == fRStr ? g->gdxDataReadStr( sk.p, v.data(), fd ) : f == fRRaw ? g->gdxDataReadRaw( ik, v.data(), fd )
                                                                              : g->gdxDataReadMap( rpos + 1, ik, v.data(), fd );
            if( rpos >= count( t ) )
            {
               c.check( r == 0, "a record after the last one" );
               c.check( g->gdxDataReadDone() == 1, "done refused after the last record" );
               m = RI;
               break;
            }
            if( f == fRMap && strict && !r ) break;
            c.check( r == 1, "record ", rpos + 1, " of ", count( t ), " missing" );
            if( f != fRMap && t >= 0 && !( dim == 0 && d->syms[t].recs.empty() ) )
            {
               Rec want;
               if( t < (int) d->syms.size() ) want = d->syms[t].recs[rpos];
               for( int i = 0; i < dim; i++ )
                  if( f == fRStr ) c.check( d->uels[want.k[i] - 1] == sk.buf[i], "key ", q( sk.buf[i] ), " expected ", q( d->uels[want.k[i] - 1] ) );
                  else
                     c.check( ik[i] == want.k[i], "key ", ik[i], " expected ", want.k[i] );
               c.check( sameVals( v, want.v, nvals( d->syms[t].type ) ), "values differ" );
            }
            else if( f == fRMap )
            {
               char u[256];
               for( int i = 0; i < dim; i++ ) c.check( g->gdxGetUEL( ik[i], u ) == 1 && d->findUel( u ) > 0, "mapped key ", ik[i], " names no label" );
            }
            rpos++;
            break;
         }
         case fRDone:
            c.check( g->gdxDataReadDone() == 1, "done refused" );
            m = RI;
            break;
         case fFast:
         case fFastEx:
         case fFastFilt:
         {
            if( d->syms.empty() ) break;
            int sy = s.range( 1, (int) d->syms.size() ), nr = -1;
            const char *ck[MAXDIM];
            for( auto &p: ck ) p = "";
            cbCount = 0;
            int r = f == fFast ? g->gdxDataReadRawFast( sy, cb3, nr ) : f == fFastEx ? g->gdxDataReadRawFastEx( sy, cb5, nr, nullptr )
                                                                             : g->gdxDataReadRawFastFilt( sy, ck, cb4 );
            c.check( r == 1, fname[f], " refused" );
            c.check( cbCount == count( target( sy ) ), fname[f], " delivers ", cbCount, " records, expected ", count( target( sy ) ) );
            m = RI;
            break;
         }
         case fSl0:
         {
            if( d->syms.empty() ) break;
            rsy = s.range( 1, (int) d->syms.size() );
            int cnt[MAXDIM];
            c.check( g->gdxDataReadSliceStart( rsy, cnt ) == 1, "slice refused" );
            m = RSL;
            break;
         }
         case fSl:
         {
            const char *ck[MAXDIM];
            for( auto &p: ck ) p = "";
            int dim = -1;
            cbCount = 0;
            c.check( g->gdxDataReadSlice( ck, dim, cb3 ) == 1 && dim == d->syms[rsy - 1].dim, "slice" );
            c.check( cbCount == count( target( rsy ) ), "slice delivers ", cbCount, " records, expected ", count( target( rsy ) ) );
            break;
         }
         case fSlU:
         {
            int ik[MAXDIM] {};
            StrKeys sk;
            c.check( g->gdxDataSliceUELS( ik, sk.p ) == 1, "slice labels" );
            break;
         }
         case fDomEl:
         {
            if( d->syms.empty() ) break;
            int sy = s.range( 1, (int) d->syms.size() ), nr = -1;
            int dim = d->syms[sy - 1].dim;
            if( !dim ) break;
            int t = target( sy ), p = s.range( 1, dim );
            c.check( g->gdxGetDomainElements( sy, p, -1, nullptr, nr, nullptr ) == 1, "domain elements refused" );
            if( t >= 0 )
            {
               std::set<int> e;
               for( auto &r: d->syms[t].recs ) e.insert( r.k[p - 1] );
               c.check( nr == (int) e.size(), nr, " domain elements, expected ", e.size() );
            }
            m = RI;
            break;
         }
         case fIdxLen:
         {
            int li[MAXDIM];
            if( !d->syms.empty() ) g->gdxSymbIndxMaxLength( s.range( 1, (int) d->syms.size() ), li );
            break;
         }
         case fFilEx: g->gdxFilterExists( s.range( 1, 4 ) ); break;
         case fFil0:
            c.check( g->gdxFilterRegisterStart( s.range( 1, 4 ) ) == 1, "filter refused" );
            m = RF;
            break;
         case fFil:
            if( unum.empty() ) break;
            c.check( g->gdxFilterRegister( unum.begin()->first ) == 1, "filter element refused" );
            break;
         case fFilDone:
            c.check( g->gdxFilterRegisterDone() == 1, "filter" );
            m = RI;
            break;
         default: break;
      }
   }
   int target( int sy ) const// index of the symbol holding the records, -1: the universe
   {
      while( sy > 0 && d->syms[sy - 1].aliasOf >= 0 ) sy = d->syms[sy - 1].aliasOf;
      return sy - 1;
   }
   int count( int t ) const { return t < 0 ? (int) d->uels.size() : ( d->syms[t].dim == 0 ? 1 : (int) d->syms[t].recs.size() ); }
   void queries()
   {
      char a[256], b[256];
      int x, y, z;
      int sc = -1, uc = -1;
      switch( s.range( 0, 5 ) )
      {
         case 0:
            c.check( g->gdxSystemInfo( sc, uc ) == 1, "system info" );
            if( d ) c.check( sc == (int) d->syms.size() && ( !writing || uc == (int) d->uels.size() ), "system info ", sc, " ", uc, " expected ", d->syms.size(), " ", d->uels.size() );
            else
               c.check( sc == 0 && uc == 0, "system info of a closed object ", sc, " ", uc );
            break;
         case 1:
            if( d && !d->syms.empty() )
            {
               int n = s.range( 1, (int) d->syms.size() );
               c.check( g->gdxSymbolInfo( n, a, x, y ) == 1 && d->syms[n - 1].name == a && x == d->syms[n - 1].dim && y == d->syms[n - 1].type, "symbol info of ", n );
            }
            break;
         case 2:
            if( d && !d->uels.empty() )
            {
               int n = s.range( 1, (int) d->uels.size() );
               c.check( g->gdxUMUelGet( n, a, x ) == 1 && d->uels[n - 1] == a, "label ", n );
               auto it = umap.find( upper( a ) );
               if( writing ) c.check( x == ( it == umap.end() ? -1 : it->second ), "label ", a, " has user number ", x );
            }
            break;
         case 3: g->gdxFileVersion( a, b ); break;
         case 4:
            c.check( g->gdxFileInfo( x, z ) == 1, "file info" );
            c.check( ( x == 0 ) == ( m == N ), "file info version ", x );
            break;
         default:
            if( writing && d && s.chance( 1, 3 ) )
            {
               std::string t = "txt" + std::to_string( s.range( 0, 9 ) );
               int nr = -1, want = -1;
               for( size_t i = 0; i < d->texts.size(); i++ )
                  if( d->texts[i] == t ) want = (int) i;
               c.check( g->gdxAddSetText( t.c_str(), nr ) == 1, "set text" );
               if( want < 0 )
               {
                  want = (int) d->texts.size();
                  d->texts.push_back( t );
               }
               c.check( nr == want, "set text number ", nr, " expected ", want );
            }
      }
   }
   void run( int ops )
   {
      for( int i = 0; i < ops; i++ )
      {
         if( s.chance( 1, 5 ) ) queries();
         // prefer steps that are possible here
         int f = s.range( 0, NF - 1 );
         if( s.chance( 1, 2 ) )
            for( int t = 0; t < 8 && !legal( f, m ); t++ ) f = s.range( 0, NF - 1 );
         if( f == fClose || ( m == N && legal( f, m ) ) ) continue;
         if( legal( f, m ) ) step( f );
         else
            illegal( f );
      }
   }
   void open( const std::string &fn, Doc *doc, int kind, int compr )
   {// kind 0 write, 1 read, 2 append
      int err = -1;
      int r = kind == 0 ? g->gdxOpenWriteEx( fn.c_str(), "p", compr, err ) : kind == 1 ? g->gdxOpenRead( fn.c_str(), err )
                                                                          : g->gdxOpenAppend( fn.c_str(), "p", err );
      c.check( r == 1 && err == 0, "open (kind ", kind, ") failed, ", r, " error ", err );
      c.check( g->gdxErrorCount() == 0 && g->gdxGetLastError() == 0, "errors right after opening" );
      d = doc;
      writing = kind != 1;
      m = writing ? WI : RI;
      expanded = false;
      umap.clear();
      unum.clear();
      cur = -1;
   }
   void close()
   {
      if( cur >= 0 ) finishSym();
      int r = g->gdxClose();
      c.check( r == 0, "close in state ", mname[m], " returned ", r );
      m = N;
      d = nullptr;
      writing = false;
   }
};

static void verifyFile( Ctx &c, const std::string &fn, Doc &d )
{
   auto h = mk();
   openRead( c, *h, fn );
   // a scalar with declared (empty) domain is not looked at
   Doc e = d;
   for( auto &y: e.syms )
      if( y.dim == 0 )
      {
         StrKeys sk;
         int n = e.findSym( y.name );
         y.domKind = h->gdxSymbolGetDomainX( n, sk.p );
      }
   checkMeta( c, *h, e );
   checkData( c, *h, e );
   closeOk( c, *h );
}

VP_PROP( C14, sessions, "at least one session with at least three refused calls and at least one symbol written or read", 12000, 500000 )
{
   Quiet quiet;
   Drv v( c, s );
   int files {};
   std::vector<std::unique_ptr<Doc>> docs;
   std::vector<std::string> names;
   int ns = s.range( 1, 4 );
   v.run( s.range( 0, 6 ) );// closed object
   std::string kinds;
   for( int k = 0; k < ns; k++ )
   {
      int kind = files == 0 ? 0 : s.range( 0, 2 ), which;
      if( kind == 0 )
      {
         which = files++;
         docs.push_back( std::make_unique<Doc>() );
         names.push_back( c.path( "f" + std::to_string( which ) + ".gdx" ) );
      }
      else
         which = s.range( 0, files - 1 );
      v.otherFile = files > 1 ? names[( which + 1 ) % files] : "";
      v.open( names[which], docs[which].get(), kind, s.range( 0, 1 ) );
      v.run( s.range( 3, 40 ) );
      // the file that a refused open could have touched is whole
      v.close();
      kinds += "wra"[kind];
      if( s.chance( 1, 3 ) ) v.run( s.range( 1, 4 ) );
      for( int f = 0; f < files; f++ )
         if( f == which || s.chance( 1, 3 ) ) verifyFile( c, names[f], *docs[f] );
   }
   size_t syms {};
   for( auto &d: docs ) syms += d->syms.size();
   c.nontrivial = v.refused >= 3 && syms > 0;
   c.label( "refused", v.refused );
   c.label( "legal", v.legalOps );
   c.desc = "sessions " + kinds + ", " + std::to_string( v.legalOps ) + " legal, " + std::to_string( v.refused ) + " refused calls, " + std::to_string( syms ) + " symbols";
}

// Every function with any arguments in any state: nothing breaks, and a file that was closed
// without an error can be read completely.
VP_PROP( C14, anything, "at least one file was opened for writing and at least ten calls were made in it", 12000, 500000 )
{
   Quiet quiet;
   auto g = mk();
   std::string fn[2] = { c.path( "x.gdx" ), c.path( "y.gdx" ) };
   int open = -1;
   bool wr = false, good[2] {};
   int calls {}, wcalls {}, ioBad {};
   auto num = [&]() -> int {
      switch( s.weighted( { 8, 4, 1, 1, 1 } ) )
      {
         case 0: return s.range( 0, 4 );
         case 1: return s.range( -3, 30 );
         case 2: return (int) s.bits32();
         case 3: return 2147483647;
         default: return -2147483647 - 1;
      }
   };
   std::vector<std::string> keep;
   keep.reserve( 100000 );
   auto str = [&]() -> const char * {
      switch( s.weighted( { 6, 2, 2, 1 } ) )
      {
         case 0: keep.push_back( "k" + std::to_string( s.range( 0, 9 ) ) ); break;
         case 1: keep.push_back( genUelAny( s ) ); break;
         case 2: keep.push_back( genIdentAny( s ) ); break;
         default: keep.push_back( std::string( s.range( 0, 3 ) ? s.range( 0, 300 ) : s.range( 0, 2000 ), 'z' ) ); break;
      }
      return keep.back().c_str();
   };
   static char kb[MAXDIM][256];
   static char big[4][256];
   int ops = s.range( 5, 60 );
   for( int op = 0; op < ops; op++ )
   {
      calls++;
      wcalls += open >= 0 && wr;
      int ik[MAXDIM], ik2[MAXDIM], a = -1, b = -1, d3 = -1;
      char *kp[MAXDIM];
      const char *ck[MAXDIM];
      double v[GMS_SVIDX_MAX] {};
      for( int i = 0; i < MAXDIM; i++ )
      {
         ik[i] = s.chance( 1, 12 ) ? num() : s.range( 1, 4 );
         ik2[i] = ik[i] + 3 < ik[i] ? ik[i] : ik[i] + 3;
         kp[i] = kb[i];
         ck[i] = s.chance( 1, 12 ) ? str() : ( s.flip() ? "k1" : "" );
      }
      for( auto &x: v ) x = s.chance( 1, 4 ) ? genDouble( s, GMS_SV_ACR * 3 ) : s.range( 0, 3 );
      int f = s.range( 0, 84 );
      if( s.chance( 1, 2 ) && open < 0 ) f = s.flip() ? 0 : 1;
      c.log( "call ", f );
      switch( f )
      {
         case 0:
         case 1:
         {
            int w = s.range( 0, 1 );
            int r = f == 0 ? g->gdxOpenWriteEx( fn[w].c_str(), s.chance( 1, 8 ) ? str() : "vp", num(), a ) : ( s.flip() ? g->gdxOpenRead( fn[w].c_str(), a ) : g->gdxOpenAppend( fn[w].c_str(), "vp", a ) );
            c.check( ( r != 0 ) == ( a == 0 ), "open returns ", r, " with error ", a );
            c.check( open < 0 || r == 0, "open of a second file succeeded" );
            if( r )
            {
               open = w;
               int fv, cl;
               g->gdxFileInfo( fv, cl );
               int sc, uc;
               int n = g->gdxErrorCount();
               (void) n;
               g->gdxSystemInfo( sc, uc );
               // which kind it became shows in whether adding an alias is possible
               wr = f == 0 || g->gdxUELRegisterRawStart() == 1;
               if( f != 0 && wr ) g->gdxUELRegisterDone();
               if( wr ) good[w] = false;
            }
            break;
         }
         case 2:
         {
            if( !s.chance( 1, 3 ) ) break;
            int r = g->gdxClose();
            if( open >= 0 && wr )
            {
               good[open] = r == 0;
               ioBad += r != 0;
            }
            open = -1;
            break;
         }
         case 3: g->gdxAddAlias( str(), str() ); break;
         case 4: g->gdxAddAlias( "*", str() ); break;
         case 5: g->gdxAcronymAdd( str(), str(), num() ); break;
         case 6: g->gdxAcronymCount(); break;
         case 7: g->gdxAcronymGetInfo( num(), big[0], big[1], a ); break;
         case 8: g->gdxAcronymGetMapping( num(), a, b, d3 ); break;
         case 9: g->gdxAcronymIndex( v[0] ); break;
         case 10: g->gdxAcronymName( v[0], big[0] ); break;
         case 11: g->gdxAcronymNextNr( num() ); break;
         case 12: g->gdxAcronymSetInfo( num(), str(), str(), num() ); break;
         case 13: g->gdxAcronymValue( num() ); break;
         case 14: g->gdxSymbolAddComment( num(), str() ); break;
         case 15: g->gdxSymbolGetComment( num(), num(), big[0] ); break;
         case 16: g->gdxSymbolGetDomain( num(), ik ); break;
         case 17: g->gdxSymbolGetDomainX( num(), kp ); break;
         case 18: g->gdxSymbolSetDomain( ck ); break;
         case 19: g->gdxSymbolSetDomainX( num(), ck ); break;
         case 20: g->gdxGetDomainElements( num(), num(), num(), s.flip() ? cbD : nullptr, a, nullptr ); break;
         case 21: g->gdxErrorCount(); break;
         case 22: g->gdxErrorStr( num(), big[0] ); break;
         case 23: g->gdxGetLastError(); break;
         case 24: g->gdxFilterExists( num() ); break;
         case 25: g->gdxFilterRegister( num() ); break;
         case 26: g->gdxFilterRegisterDone(); break;
         case 27: g->gdxFilterRegisterStart( num() ); break;
         case 28: g->gdxFindSymbol( str(), a ); break;
         case 29: g->gdxGetUEL( num(), big[0] ); break;
         case 30: g->gdxSymbIndxMaxLength( num(), ik ); break;
         case 31: g->gdxSymbMaxLength(); break;
         case 32: g->gdxUELMaxLength(); break;
         case 33: g->gdxDataErrorCount(); break;
         case 34: g->gdxDataErrorRecord( num(), ik, v ); break;
         case 35: g->gdxDataErrorRecordX( num(), ik, v ); break;
         case 36: g->gdxDataReadDone(); break;
         case 37:
            for( auto &x: ik ) x = s.chance( 1, 6 ) ? num() : s.range( -2, 2 );
            g->gdxDataReadFilteredStart( num(), ik, a );
            break;
         case 38: g->gdxDataReadMap( num(), ik, v, a ); break;
         case 39: g->gdxDataReadMapStart( num(), a ); break;
         case 40: g->gdxDataReadRaw( ik, v, a ); break;
         case 41: g->gdxDataReadRawFast( num(), cb3, a ); break;
         case 42: g->gdxDataReadRawFastEx( num(), cb5, a, nullptr ); break;
         case 43: g->gdxDataReadRawFastFilt( num(), ck, cb4 ); break;
         case 44: g->gdxDataReadRawStart( num(), a ); break;
         case 45: g->gdxDataReadSlice( ck, a, cb3 ); break;
         case 46: g->gdxDataReadSliceStart( num(), ik ); break;
         case 47: g->gdxDataReadStr( kp, v, a ); break;
         case 48: g->gdxDataReadStrStart( num(), a ); break;
         case 49: g->gdxDataSliceUELS( ik, kp ); break;
         case 50: g->gdxGetSpecialValues( v ); break;
         case 51: g->gdxMapValue( v[0], a ); break;
         case 52: g->gdxResetSpecialValues(); break;
         case 53: g->gdxFileInfo( a, b ); break;
         case 54: g->gdxSymbolDim( num() ); break;
         case 55: g->gdxSymbolInfo( num(), big[0], a, b ); break;
         case 56: g->gdxSymbolInfoX( num(), a, b, big[0] ); break;
         case 57: g->gdxSystemInfo( a, b ); break;
         case 58: g->gdxCurrentDim(); break;
         case 59: g->gdxAddSetText( str(), a ); break;
         case 60: g->gdxGetElemText( num(), big[0], a ); break;
         case 61: g->gdxSetHasText( num() ); break;
         case 62: g->gdxSetTextNodeNr( num(), num() ); break;
         case 63: g->gdxUELRegisterDone(); break;
         case 64: g->gdxUELRegisterMap( s.chance( 1, 8 ) ? s.range( -5, 100000 ) : s.range( 1, 20 ), str() ); break;
         case 65: g->gdxUELRegisterMapStart(); break;
         case 66: g->gdxUELRegisterRaw( str() ); break;
         case 67: g->gdxUELRegisterRawStart(); break;
         case 68: g->gdxUELRegisterStr( str(), a ); break;
         case 69: g->gdxUELRegisterStrStart(); break;
         case 70: g->gdxUMFindUEL( str(), a, b ); break;
         case 71: g->gdxUMUelGet( num(), big[0], a ); break;
         case 72: g->gdxUMUelInfo( a, b ); break;
         case 73: g->gdxRenameUEL( str(), str() ); break;
         case 74: g->gdxFileVersion( big[0], big[1] ); break;
         case 75: g->gdxDataWriteDone(); break;
         case 76: g->gdxDataWriteMap( ik, v ); break;
         case 77: g->gdxDataWriteMapStart( str(), str(), num(), num(), num() ); break;
         case 78: g->gdxDataWriteRaw( ik, v ); break;
         case 79: g->gdxDataWriteRawStart( str(), str(), num(), num(), num() ); break;
         case 80:
            for( int i = 0; i < MAXDIM; i++ ) ik[i] = s.range( 1, 3 ), ik2[i] = ik[i] + s.range( 0, 9 );
            g->gdxDataWriteRawStartKeyBounds( str(), str(), num(), num(), num(), ik, ik2 );
            break;
         case 81:
            for( int i = 0; i < MAXDIM; i++ )
               if( !*ck[i] && s.chance( 1, 2 ) ) ck[i] = "k2";
            g->gdxDataWriteStr( ck, v );
            break;
         case 82: g->gdxDataWriteStrStart( str(), str(), num(), num(), num() ); break;
         case 83:
            g->gdxStoreDomainSetsSet( s.flip() );
            g->gdxAllowBogusDomainsSet( s.flip() );
            g->gdxMapAcronymsToNaNSet( s.flip() );
            break;
         default: g->gdxUELRegisterDone();
      }
   }
   if( open >= 0 )
   {
      int r = g->gdxClose();
      if( wr ) good[open] = r == 0, ioBad += r != 0;
   }
   c.check( ioBad == 0, "a close failed although nothing is wrong with the disk" );
   for( int w = 0; w < 2; w++ )
   {
      if( !good[w] ) continue;
      auto h = mk();
      openRead( c, *h, fn[w] );
      int sc = 0, uc = 0;
      h->gdxSystemInfo( sc, uc );
      for( int i = 0; i <= sc; i++ )
      {
         char n[256];
         int dim, ty, nr = -1;
         c.check( h->gdxSymbolInfo( i, n, dim, ty ) == 1, "symbol info" );
         int r = h->gdxDataReadRawStart( i, nr );
         c.check( r == 1, "symbol ", i, " cannot be read" );
         int k[MAXDIM], fd, got {};
         double v[5];
         while( h->gdxDataReadRaw( k, v, fd ) ) got++;
         c.check( got == nr, "symbol ", i, " ", n, " delivers ", got, " of ", nr, " announced records" );
         c.check( h->gdxDataReadDone() == 1, "done" );
      }
      closeOk( c, *h );
   }
   c.nontrivial = wcalls >= 10;
   c.desc = std::to_string( calls ) + " calls, " + std::to_string( wcalls ) + " in write sessions";
}
