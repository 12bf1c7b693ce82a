// C17 files follow the exchange format, in both directions.
#include "codec.hpp"
using namespace vp;

static std::string qs( const std::string &x )
{
   std::string r = "\"";
   for( unsigned char ch: x )
   {
      char t[8];
      if( ch >= 32 && ch < 127 ) r += char( ch );
      else
      {
         snprintf( t, sizeof t, "\\x%02x", ch );
         r += t;
      }
   }
   return r + "\"";
}

// the documents are equal, as seen from the file
static void compare( Ctx &c, const FileDoc &f, const Doc &d, const std::vector<Acr> &acrs )
{
   c.check( f.d.uels == d.uels, "the file holds ", f.d.uels.size(), " labels, expected ", d.uels.size(), " (or other ones)" );
   c.check( f.d.texts == d.texts, "set texts in the file differ: ", f.d.texts.size(), " expected ", d.texts.size() );
   c.check( f.d.syms.size() == d.syms.size(), "the file holds ", f.d.syms.size(), " symbols, expected ", d.syms.size() );
   for( size_t i = 0; i < d.syms.size(); i++ )
   {
      const Sym &a = f.d.syms[i], &b = d.syms[i];
      auto ctx = [&] { return "symbol " + std::to_string( i + 1 ) + " " + b.name + " in the file: "; };
      c.check( a.name == b.name && a.dim == b.dim && a.type == b.type && a.user == b.user, ctx(), "name, dimension, type or user information differ" );
      c.check( a.expl == b.expl, ctx(), "explanatory text ", qs( a.expl ), " expected ", qs( b.expl ) );
      c.check( a.comments == b.comments, ctx(), "comments differ" );
      c.check( a.aliasOf == b.aliasOf, ctx(), "alias of ", a.aliasOf, " expected ", b.aliasOf );
      if( b.aliasOf >= 0 ) continue;
      c.check( a.errors == b.errors, ctx(), "errors ", a.errors, " expected ", b.errors );
      c.check( a.domKind == b.domKind, ctx(), "domain kind ", a.domKind, " expected ", b.domKind );
      c.check( b.domKind == 1 || a.dom == b.dom, ctx(), "domain names differ" );
      bool ht = false;
      for( auto &r: b.recs ) ht |= b.type == GMS_DT_SET && r.v[0] != 0;
      c.check( f.hasText[i] == ( ht ? 1 : 0 ), ctx(), "text indicator ", (int) f.hasText[i], " expected ", ht );
      c.check( a.recs.size() == b.recs.size(), ctx(), a.recs.size(), " records, expected ", b.recs.size() );
      int nv = nvals( b.type );
      for( size_t k = 0; k < a.recs.size(); k++ )
      {
         V5 v = b.recs[k].v;
         for( auto &x: v ) x = canonical( x );
         c.check( a.recs[k].k == b.recs[k].k && sameVals( a.recs[k].v, v, nv ), ctx(), "record ", k, " is ", recStr( a.recs[k], nv ), " expected ", recStr( { b.recs[k].k, v }, nv ) );
      }
   }
   c.check( f.acrs.size() == acrs.size(), "the file holds ", f.acrs.size(), " acronyms, expected ", acrs.size() );
   for( size_t i = 0; i < acrs.size(); i++ )
      c.check( f.acrs[i].name == acrs[i].name && f.acrs[i].text == acrs[i].text && f.acrs[i].idx == acrs[i].idx, "acronym ", i + 1, " is ", f.acrs[i].name, "/", f.acrs[i].idx, " expected ", acrs[i].name, "/", acrs[i].idx );
}

// more symbols by strings: a symbol with acronyms, a regular domain
static void writeMore( Ctx &c, Src &s, TGXFileObj &g, Doc &d, std::vector<Acr> &acrs, const std::string &pre )
{
   int n = s.range( 0, 3 );
   std::vector<std::string> domSets;// one-dimensional sets of this session
   for( int i = 0; i < n; i++ )
   {
      Sym y;
      y.name = pre + std::to_string( i );
      y.type = s.flip() ? GMS_DT_SET : GMS_DT_PAR;
      y.dim = s.range( 1, 3 );
      if( y.type == GMS_DT_SET && s.flip() ) y.dim = 1;
      y.expl = "more";
      c.check( g.gdxDataWriteStrStart( y.name.c_str(), "more", y.dim, y.type, 0 ) == 1, "start of ", y.name, " refused" );
      int kind = domSets.empty() ? 0 : s.range( 0, 2 );
      std::vector<bool> checked( y.dim, false );
      if( kind )
      {
         const char *p[3];
         for( int k = 0; k < y.dim; k++ )
         {
            y.dom.push_back( s.chance( 1, 3 ) ? "*" : s.pick( domSets ) );
            checked[k] = y.dom[k] != "*";
         }
         for( int k = 0; k < y.dim; k++ ) p[k] = y.dom[k].c_str();
         c.check( g.gdxSymbolSetDomain( p ) == 1, "domain refused" );
         y.domKind = 3;
      }
      std::map<Key, V5> m;
      int nr = s.range( 0, 12 );
      for( int k = 0; k < nr; k++ )
      {
         const char *p[3];
         std::string l[3];
         bool ok = true;
         for( int q = 0; q < y.dim; q++ )
         {
            if( checked[q] )
            {
               auto &dr = d.syms[d.findSym( y.dom[q] ) - 1].recs;
               if( dr.empty() )
               {
                  ok = false;
                  break;
               }
               l[q] = d.uels[dr[s.range( 0, (int) dr.size() - 1 )].k[0] - 1];
            }
            else
               l[q] = s.chance( 1, 3 ) && !d.uels.empty() ? d.uels[s.range( 0, (int) d.uels.size() - 1 )] : "x" + std::to_string( s.range( 1, 400 ) );
            p[q] = l[q].c_str();
         }
         if( !ok ) break;
         V5 v {};
         int acr = 0;
         if( y.type == GMS_DT_PAR )
         {
            if( s.chance( 1, 3 ) )
            {
               acr = s.range( 1, 6 );
               v[0] = GMS_SV_ACR * acr;
            }
            else
               v[0] = genDouble( s );
         }
         else if( d.texts.size() > 1 )
            v[0] = s.range( 0, (int) d.texts.size() - 1 );
         Key key;
         for( int q = 0; q < y.dim; q++ ) key.push_back( d.addUel( l[q] ) );
         if( !m.insert( { key, v } ).second ) continue;// every key once
         c.check( g.gdxDataWriteStr( p, v.data() ) == 1, "record refused" );
      }
      c.check( g.gdxDataWriteDone() == 1, "done refused" );
      for( auto &[k, v]: m )
      {
         y.recs.push_back( { k, v } );
         if( v[0] >= GMS_SV_ACR && std::isfinite( v[0] ) )
         {// acronyms get known in the order of the stored records
            int a = int( std::lround( v[0] / GMS_SV_ACR ) );
            bool known = false;
            for( auto &x: acrs ) known |= x.idx == a;
            if( !known ) acrs.push_back( { "", "", a } );
         }
      }
      if( y.type == GMS_DT_SET && y.dim == 1 ) domSets.push_back( y.name );
      d.syms.push_back( y );
   }
   // names for some of the acronyms
   for( size_t i = 0; i < acrs.size(); i++ )
      if( acrs[i].name.empty() && s.chance( 1, 2 ) )
      {
         acrs[i].name = "acr" + pre + std::to_string( acrs[i].idx );
         acrs[i].text = "text " + std::to_string( i );
         c.check( g.gdxAcronymSetInfo( (int) i + 1, acrs[i].name.c_str(), acrs[i].text.c_str(), acrs[i].idx ) == 1, "acronym information refused" );
      }
}
static void named( std::vector<Acr> &acrs )
{
   for( auto &a: acrs )
      if( a.name.empty() ) a.name = "UnknownACRO" + std::to_string( a.idx );
}

VP_PROP( C17, written, "the library wrote a file with at least one record, and an independent decoder read it", 6000, 600000 )
{
   GenOpt o;
   o.rich = true;
   o.maxRecs = 300;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   Doc d;
   std::vector<Acr> acrs;
   std::string prod = s.flip() ? "vp" : genText( s );
   openWrite( c, *g, fn, w.compr, prod.c_str() );
   writePlan( c, s, *g, p, w, d );
   writeMore( c, s, *g, d, acrs, "zzm" );
   closeOk( c, *g );
   named( acrs );
   auto dec = [&]( const char *what ) {
      std::string b = slurpFile( fn );
      try
      {
         FileDoc f = decodeFile( b );
         if( !std::strcmp( what, "written" ) ) c.check( f.end == b.size(), "the file has ", b.size() - f.end, " bytes behind its last table" );
         return f;
      }
      catch( const DecodeError &e )
      {
         c.fail( "the ", what, " file does not follow the layout: ", e.what() );
         throw;
      }
   };
   FileDoc f = dec( "written" );
   compare( c, f, d, acrs );
   c.check( f.compr == w.compr, "compression indicator ", f.compr );
   c.check( f.producer == prod, "producer ", qs( f.producer ) );
   size_t recs = 0;
   for( auto &y: d.syms ) recs += y.recs.size();
   c.nontrivial = recs > 0;
   int app = s.weighted( { 3, 1, 1 } );
   for( int a = 0; a < app; a++ )
   {
      auto h = mkUsed( c, s );
      int err = 0;
      c.check( h->gdxOpenAppend( fn.c_str(), "vp2", err ) == 1 && err == 0, "append refused, error ", err );
      if( a == 0 )
         for( int k = s.range( 0, 2 ); k > 0; k-- )
         {
            int nr = -1;
            std::string t = "appended text " + std::to_string( k );
            c.check( h->gdxAddSetText( t.c_str(), nr ) == 1, "text refused" );
            d.texts.push_back( t );
         }
      writeMore( c, s, *h, d, acrs, "zzn" + std::to_string( a ) + "_" );
      closeOk( c, *h );
      named( acrs );
      compare( c, dec( "appended" ), d, acrs );
      c.label( "append" );
   }
   c.label( w.compr ? "compressed" : "plain" );
   c.desc = p.describe() + ( w.compr ? "compressed " : "" ) + std::to_string( app ) + " appends";
}

VP_PROP( C17, read, "a file made by an independent encoder, with at least one record, was read by the library", 9000, 900000 )
{
   EncCfg e;
   e.version = 7 - s.weighted( { 5, 2, 2 } );
   switch( s.weighted( { 4, 4, 1 } ) )
   {
      case 1: e.swapW = e.swapI = e.swapD = true; break;
      case 2:
         e.swapW = s.flip();
         e.swapI = s.flip();
         e.swapD = s.flip();
         break;
      default: break;
   }
   GenOpt o;
   o.rich = true;
   o.maxRecs = 300;
   if( e.version < 7 ) o.maxDim = 10;
   Plan p = genPlan( s, o );
   FileDoc f;
   Doc &d = f.d;
   for( auto &u: p.pool ) d.addUel( u );
   d.anyScalarFdim = e.version < 7;
   e.compr = e.version > 5 ? s.range( 0, 1 ) : 0;
   bool mixed = e.version > 5 && s.chance( 1, 8 );
   e.shuffleSections = s.chance( 1, 5 );
   e.gaps = s.chance( 1, 6 );
   e.blocks = s.flip();
   e.rnd = s.bits32();
   e.audit = s.flip() ? "GDX Library      64 by somebody" : genText( s );
   if( s.chance( 1, 10 ) ) e.audit = "GDX Library    2001 old";
   if( e.audit.size() >= 19 && e.audit.substr( 15, 4 ) == "2001" ) c.label( "label count of 2001" );
   e.producer = s.flip() ? "producer" : genText( s );
   // texts, possibly stored more than once
   f.fileTexts = { "" };
   std::vector<int> textNr { 0 };
   std::map<std::string, int> tidx { { "", 0 } };
   bool dups = s.chance( 1, 4 );
   for( auto &t: p.texts )
   {
      if( dups && s.chance( 1, 3 ) )
      {
         f.fileTexts.push_back( f.fileTexts[s.range( 0, (int) f.fileTexts.size() - 1 )] );
         textNr.push_back( tidx[f.fileTexts.back()] );
      }
      if( tidx.emplace( t, (int) tidx.size() ).second ) d.texts.push_back( t );
      f.fileTexts.push_back( t );
      textNr.push_back( tidx[t] );
   }
   FileDoc enc;// what is stored; the text numbers differ when texts are stored twice
   std::map<std::string, std::string> firstDom;
   for( auto &sp: p.syms )
   {
      Sym y;
      y.name = sp.name;
      y.dim = sp.dim;
      y.type = sp.type;
      y.user = sp.user;
      y.expl = sp.expl;
      y.aliasOf = sp.aliasOf;
      if( y.aliasOf < 0 )
      {
         y.recs = sp.recs;
         y.errors = s.chance( 1, 8 ) ? s.range( 1, 9 ) : 0;
         if( e.version >= 7 )
         {
            y.comments = sp.comments;
            if( !sp.domX.empty() )
            {
               y.domKind = 2;
               for( auto &n: sp.domX ) y.dom.push_back( firstDom.emplace( upper( n ), n ).first->second );
            }
            else if( y.dim && s.chance( 1, 3 ) && !d.syms.empty() )
            {
               y.domKind = 3;
               for( int k = 0; k < y.dim; k++ )
               {
                  auto &t = d.syms[s.range( 0, (int) d.syms.size() - 1 )];
                  y.dom.push_back( t.dim == 1 && ( t.type == GMS_DT_SET || t.type == GMS_DT_ALIAS ) ? t.name : "*" );
               }
            }
            // acronyms
            if( y.type != GMS_DT_SET && s.chance( 1, 4 ) )
               for( auto &r: y.recs )
                  if( s.chance( 1, 3 ) ) r.v[s.range( 0, nvals( y.type ) - 1 )] = GMS_SV_ACR * s.range( 1, 8 );
         }
      }
      bool ht = false;
      Sym stored = y;
      for( auto &r: stored.recs )
         if( y.type == GMS_DT_SET )
         {
            int v = (int) f.fileTexts.size() > 1 && s.flip() ? s.range( 0, (int) f.fileTexts.size() - 1 ) : 0;
            if( s.chance( 1, 10 ) ) v = (int) f.fileTexts.size() + s.range( 0, 3 );// no such text
            r.v[0] = v;
            y.recs[&r - stored.recs.data()].v[0] = v < (int) textNr.size() ? textNr[v] : v;
            ht |= v != 0;
         }
      y.hasText = ht;
      f.hasText.push_back( ht );
      d.syms.push_back( y );
      enc.d.syms.push_back( stored );
      e.symCompr.push_back( mixed ? s.flip() : e.compr > 0 );
   }
   if( e.version >= 7 )
      for( int k = s.range( 0, 5 ); k > 0; k-- ) f.acrs.push_back( { "acro" + std::to_string( k ), genText( s ), k } );
   enc.d.uels = d.uels;
   enc.hasText = f.hasText;
   enc.fileTexts = f.fileTexts;
   enc.acrs = f.acrs;
   std::string bytes = encodeFile( enc, e ), fn = c.path( "e.gdx" );
   spitFile( fn, bytes );
   auto g = mkUsed( c, s );
   bool swapped = e.swapW || e.swapI || e.swapD;
   std::string what = "version " + std::to_string( e.version ) + ( swapped ? " other byte order" : "" ) + ( e.compr ? " compressed" : "" ) + ( e.gaps ? " gaps" : "" ) + ( e.shuffleSections ? " shuffled" : "" ) + ( dups ? " repeated texts" : "" );
   c.desc = p.describe() + what;
   int err = 0;
   c.check( g->gdxOpenRead( fn.c_str(), err ) == 1 && err == 0, what, ": a file that follows the layout is rejected with error ", err );
   auto verify = [&] {
      checkMeta( c, *g, d );
      checkData( c, *g, d );
      if( e.audit.size() < 250 )
      {
         char a[512], b[512];
         c.check( g->gdxFileVersion( a, b ) == 1 && e.audit == a && e.producer == b, "version strings ", qs( a ), " ", qs( b ), " expected ", qs( e.audit ), " ", qs( e.producer ) );
      }
      int fv = -1, cl = -1;
      c.check( g->gdxFileInfo( fv, cl ) == 1 && fv == e.version && cl == e.compr, "file information ", fv, "/", cl );
      for( size_t i = 0; i < d.syms.size(); i++ ) c.check( g->gdxSetHasText( (int) i + 1 ) == ( f.hasText[i] ? 1 : 0 ), "text indicator of symbol ", i + 1 );
      c.check( g->gdxAcronymCount() == (int) f.acrs.size(), "acronyms ", g->gdxAcronymCount(), " expected ", f.acrs.size() );
      for( size_t i = 0; i < f.acrs.size(); i++ )
      {
         char a[512], b[512];
         int x = -1;
         c.check( g->gdxAcronymGetInfo( (int) i + 1, a, b, x ) == 1 && f.acrs[i].name == a && f.acrs[i].text == b && f.acrs[i].idx == x, "acronym ", i + 1, " ", a, " ", x );
      }
      auto u = readRaw( c, *g, 0, 1, GMS_DT_SET );
      c.check( u.size() == d.uels.size(), "the universe has ", u.size(), " labels, expected ", d.uels.size() );
   };
   verify();
   closeOk( c, *g );
   c.check( slurpFile( fn ) == bytes, "reading changed the file" );
   size_t recs = 0;
   for( auto &y: d.syms ) recs += y.recs.size();
   c.nontrivial = recs > 0;
   c.label( "version", e.version );
   c.label( swapped ? "other byte order" : "native byte order" );
   if( e.compr ) c.label( "compressed" );
   if( s.chance( 1, 3 ) )
   {
      int r = g->gdxOpenAppend( fn.c_str(), "vp", err );
      if( e.version < 7 || swapped )
      {
         c.check( r == 0 && err != 0, what, ": append returned ", r, " with error ", err );
         c.check( slurpFile( fn ) == bytes, what, ": the refused append changed the file" );
         c.label( "append refused" );
      }
      else if( !e.gaps && !e.shuffleSections )
      {
         c.check( r == 1 && err == 0, what, ": append refused, error ", err );
         Doc old = d;
         // repeated texts keep their numbers
         d.texts = f.fileTexts;
         for( size_t i = 0; i < d.syms.size(); i++ ) d.syms[i].recs = enc.d.syms[i].recs;
         std::vector<Acr> acrs = f.acrs;
         writeMore( c, s, *g, d, acrs, "zzq" );
         closeOk( c, *g );
         try
         {
            FileDoc x = decodeFile( slurpFile( fn ) );
            for( size_t i = 0; i < old.syms.size(); i++ )
            {
               const Sym &y = d.syms[i];
               c.check( x.d.syms[i].recs.size() == y.recs.size(), "after append symbol ", y.name, " has ", x.d.syms[i].recs.size(), " records, expected ", y.recs.size() );
               for( size_t k = 0; k < y.recs.size(); k++ )
               {
                  V5 v = y.recs[k].v;
                  for( auto &z: v ) z = canonical( z );
                  auto &rr = x.d.syms[i].recs[k];
                  c.check( rr.k == y.recs[k].k, "after append a key of ", y.name, " is different" );
                  if( y.type == GMS_DT_SET )
                  {
                     size_t n1 = (size_t) rr.v[0], n2 = (size_t) v[0];
                     bool in1 = n1 < x.d.texts.size(), in2 = n2 < f.fileTexts.size();
                     if( in2 ) c.check( in1 && x.d.texts[n1] == f.fileTexts[n2], what, ": after append record ", k, " of ", y.name, " has another text than before" );
                  }
                  else
                     c.check( sameVals( rr.v, v, nvals( y.type ) ), "after append a value of ", y.name, " is different" );
               }
            }
            c.check( x.d.syms.size() == d.syms.size(), "after append ", x.d.syms.size(), " symbols" );
            c.check( x.d.uels == d.uels, "after append the labels differ" );
         }
         catch( const DecodeError &ex )
         {
            c.fail( what, ": the appended file does not follow the layout: ", ex.what() );
         }
         c.label( "append" );
      }
      else if( r == 1 )
         g->gdxClose();
   }
}
