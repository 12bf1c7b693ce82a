#include "model.hpp"
#include <fstream>
#include <iterator>

namespace vp
{
std::string slurpFile( const std::string &fn )
{
   std::ifstream f( fn, std::ios::binary );
   return { std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() };
}
void spitFile( const std::string &fn, const std::string &b )
{
   std::ofstream f( fn, std::ios::binary );
   f.write( b.data(), b.size() );
}

std::string recase( Src &s, const std::string &x )
{
   std::string r = x;
   int m = s.range( 0, 2 );
   for( size_t i = 0; i < r.size(); i++ )
   {
      char u = up( r[i] );
      char l = u >= 'A' && u <= 'Z' ? char( u + 32 ) : r[i];
      r[i] = m == 0 ? u : ( m == 1 ? l : ( i % 2 ? u : l ) );
   }
   return r;
}

static std::string genChars( Src &s, int len, int cls )
{
   std::string r;
   for( int i = 0; i < len; i++ )
   {
      switch( cls )
      {
         case 0: r += char( 'a' + s.range( 0, 25 ) ); break;
         case 1: r += char( s.range( 33, 126 ) ); break;
         case 2: r += char( s.range( 32, 126 ) ); break;
         case 3: r += char( s.range( 128, 255 ) ); break;
         default: r += char( s.range( 1, 255 ) ); break;
      }
   }
   return r;
}
static std::string oneQuote( std::string r )
{
   char qc {};
   for( auto &ch: r )
      if( ch == '"' || ch == '\'' )
      {
         if( !qc ) qc = ch;
         ch = qc;
      }
   return r;
}

std::string genUel( Src &s )
{
   std::string r;
   switch( s.weighted( { 12, 6, 4, 3, 2, 2, 2, 2, 1, 1 } ) )
   {
      case 0: r = std::string( 1, char( 'a' + s.range( 0, 5 ) ) ) + std::to_string( s.range( 0, 99 ) ); break;
      case 1: r = genChars( s, s.range( 1, 8 ), 0 ); break;
      case 2: r = genChars( s, s.range( 1, 12 ), 2 ); break;
      case 3: r = std::to_string( s.range( 0, 2000 ) ); break;
      case 4: r = std::string( 62, char( 'a' + s.range( 0, 3 ) ) ) + char( 'a' + s.range( 0, 25 ) ); break;// exactly 63
      case 5: r = genChars( s, s.range( 1, 10 ), 3 ); break;
      case 6: r = " " + genChars( s, s.range( 1, 6 ), 0 ); break;
      case 7: r = "it" + std::string( 1, s.flip() ? '\'' : '"' ) + genChars( s, s.range( 0, 4 ), 0 ); break;
      case 8: r = std::string( 1, char( 127 ) ) + genChars( s, s.range( 0, 3 ), 0 ); break;
      default: r = genChars( s, s.range( 40, 63 ), 1 ); break;
   }
   r = trimR( oneQuote( r ) );
   if( r.empty() ) r = "z" + std::to_string( s.range( 0, 99 ) );
   if( r.size() > 63 ) r.resize( 63 );
   r = trimR( r );
   return r;
}

std::string genUelAny( Src &s )
{
   switch( s.weighted( { 8, 3, 3, 2, 2, 2, 1, 1 } ) )
   {
      case 0: return genUel( s );
      case 1: return genUel( s ) + std::string( s.range( 1, 5 ), ' ' );
      case 2: return std::string( s.range( 60, 68 ), char( 'p' + s.range( 0, 3 ) ) );
      case 3: return genUel( s ) + "\t\n";
      case 4: return genChars( s, s.range( 0, 10 ), 4 );
      case 5: return "a'b\"" + genChars( s, s.range( 0, 3 ), 0 );
      case 6: return std::string( s.range( 0, 4 ), ' ' );
      default: return std::string( s.range( 200, 420 ), 'q' ) + std::string( s.range( 0, 2 ), ' ' );
   }
}

std::string genIdent( Src &s )
{
   static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
   int len = s.weighted( { 10, 4, 1, 1 } );
   len = len == 0 ? s.range( 1, 4 ) : ( len == 1 ? s.range( 1, 12 ) : ( len == 2 ? 63 : s.range( 30, 63 ) ) );
   std::string r( 1, cs[s.range( 0, 51 )] );
   if( len > 20 )
   {
      char f = cs[s.range( 0, 62 )];
      r += std::string( len - 2, f );
      r += cs[s.range( 0, 62 )];
   }
   else
      while( (int) r.size() < len ) r += cs[s.range( 0, 62 )];
   return r;
}
std::string genIdentAny( Src &s )
{
   switch( s.weighted( { 6, 1, 1, 1, 1, 1 } ) )
   {
      case 0: return genIdent( s );
      case 1: return "";
      case 2: return "1" + genIdent( s ).substr( 0, 20 );
      case 3: return std::string( s.range( 62, 66 ), 'n' );
      case 4: return genIdent( s ).substr( 0, 20 ) + std::string( 1, char( s.range( 32, 126 ) ) );
      default: return "_" + genIdent( s ).substr( 0, 20 );
   }
}

std::string genText( Src &s, int maxlen )
{
   std::string r;
   switch( s.weighted( { 6, 5, 3, 2, 2, 2 } ) )
   {
      case 0: return "";
      case 1: r = genChars( s, s.range( 1, 20 ), 2 ); break;
      case 2: r = genChars( s, s.range( 1, 30 ), 0 ); break;
      case 3: r = genChars( s, s.range( 1, 30 ), 4 ); break;
      case 4: r = "say \"x\" 'y' " + genChars( s, s.range( 0, 5 ), 2 ); break;
      default: r = std::string( s.range( maxlen - 5, maxlen ), char( 'a' + s.range( 0, 25 ) ) ); break;
   }
   if( (int) r.size() > maxlen ) r.resize( maxlen );
   return r;
}

double genDouble( Src &s, double acrLimit )
{
   auto ok = [&]( double d ) { return std::isnan( d ) || d < acrLimit || std::isinf( d ); };
   for( int t = 0; t < 4; t++ )
   {
      double d {};
      switch( s.weighted( { 8, 6, 6, 6, 3, 3, 2, 3 } ) )
      {
         case 0: d = s.range( 0, 5 ); break;
         case 1: d = s.range( -1000, 1000 ) / 8.0; break;
         case 2:
         {
            static const double sp[] = { GMS_SV_EPS, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_UNDEF, 0.5, -1.0, 2.0, 1.0, -0.0, -2.0, -0.5 };
            d = sp[s.range( 0, 11 )];
            break;
         }
         case 3:
         {// neighbours of values with a special encoding
            static const double sp[] = { 1.0, -1.0, 0.5, 2.0, GMS_SV_EPS, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_UNDEF, 0.0, 1e-300 };
            double b = sp[s.range( 0, 10 )];
            d = std::nextafter( b, s.flip() ? 1e308 : -1e308 );
            if( s.chance( 1, 4 ) ) d = -b;
            break;
         }
         case 4: d = fromBits( s.bits64() ); break;
         case 5:
         {
            static const double sp[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon() };
            d = sp[s.range( 0, 7 )];
            break;
         }
         case 6: d = 6e300 + s.range( 0, 3 ) * 1e300; break;
         default: d = std::ldexp( double( s.range( -1000000, 1000000 ) ), s.range( -60, 60 ) ); break;
      }
      if( ok( d ) ) return d;
   }
   return 3.25;
}

std::unique_ptr<TGXFileObj> mk()
{
   std::string msg;
   auto g = std::make_unique<TGXFileObj>( msg );
   if( !msg.empty() ) throw Fail( "creating a GDX object reported: " + msg );
   g->gdxAutoConvert( 0 );// otherwise close runs the external gdxcopy program when formats differ
   return g;
}
void previousLife( Ctx &c, Src &s, TGXFileObj &g )
{
   static const char *lab[] = { "zz9", "a", "B b", "1", "x'y", "Q", "m", "i1" };
   std::string fn = c.path( "life.gdx" );
   int err = 0, nr = 0, n = s.range( 1, 3 );
   bool have = false;
   for( int step = 0; step < n; step++ )
   {
      int what = s.range( 0, 3 );
      if( !have && what != 3 ) what = 0;
      if( what == 0 )
      {
         have = g.gdxOpenWriteEx( fn.c_str(), "earlier", s.range( 0, 1 ), err ) == 1;
         if( !have ) throw Fail( "opening an unrelated file for writing failed" );
         if( s.flip() )
         {
            g.gdxUELRegisterMapStart();
            for( int i = 0; i < 5; i++ ) g.gdxUELRegisterMap( 40 - 3 * i, lab[i] );
            g.gdxUELRegisterDone();
         }
         for( int i = 0; i < 3; i++ ) g.gdxAddSetText( lab[7 - i], nr );
         if( s.flip() ) g.gdxAcronymAdd( "acrX", "", 3 );
         if( s.flip() )
         {
            double sv[GMS_SVIDX_MAX] {};
            for( int i = 0; i < GMS_SVIDX_MAX; i++ ) sv[i] = 5e200 + i * 1e199;
            g.gdxSetSpecialValues( sv );
         }
         int ns = s.range( 1, 3 );
         for( int y = 0; y < ns; y++ )
         {
            int dim = s.range( 0, 3 ), type = s.range( 0, 3 );
            g.gdxDataWriteStrStart( ( "L" + std::to_string( y ) ).c_str(), "earlier", dim, type, 0 );
            const char *dn[MAXDIM] { "L0", "*", "U" };
            if( dim && s.chance( 1, 3 ) ) g.gdxSymbolSetDomainX( y + 1, dn );
            int k = s.range( 0, 9 );
            for( int i = 0; i < k; i++ )
            {
               const char *key[MAXDIM] { lab[( i * 5 + y ) % 8], lab[i % 3], lab[( i * i ) % 8] };
               double v[5] { type == 0 ? double( i % 3 ) : i * 0.75, 1, 2, 3, 4 };
               g.gdxDataWriteStr( key, v );
            }
            if( y + 1 < ns || s.flip() ) g.gdxDataWriteDone();
         }
         g.gdxClose();
      }
      else if( what == 1 || what == 2 )
      {
         bool app = what == 2 && s.flip();
         if( ( app ? g.gdxOpenAppend( fn.c_str(), "earlier2", err ) : g.gdxOpenRead( fn.c_str(), err ) ) != 1 ) throw Fail( "an unrelated file cannot be opened again" );
         if( !app )
         {
            if( s.flip() )
            {
               g.gdxUELRegisterMapStart();
               for( int i = 0; i < 4; i++ ) g.gdxUELRegisterMap( 30 - i, lab[i] );
               g.gdxUELRegisterDone();
               g.gdxFilterRegisterStart( 1 );
               g.gdxFilterRegister( 30 );
               g.gdxFilterRegisterDone();
            }
            int act[MAXDIM], fd, k[MAXDIM];
            double v[5];
            for( int &a: act ) a = s.range( -2, 1 );
            if( s.flip() ) g.gdxDataReadFilteredStart( 1, act, nr );
            else
               g.gdxDataReadRawStart( s.range( 0, 1 ), nr );
            if( s.flip() ) ( void ) ( g.gdxDataReadRaw( k, v, fd ) || g.gdxDataReadMap( 0, k, v, fd ) );
         }
         g.gdxClose();
      }
      else
      {
         std::string bad = c.path( "bad.gdx" );
         std::string b = have && s.chance( 2, 3 ) ? slurpFile( fn ) : std::string( s.range( 0, 200 ), 'x' );
         if( !b.empty() && b[0] != 'x' ) b.resize( b.size() - 1 - s.range( 0, std::min<int>( 300, (int) b.size() - 1 ) ) );
         spitFile( bad, b );
         int r = s.flip() ? g.gdxOpenRead( bad.c_str(), err ) : g.gdxOpenAppend( bad.c_str(), "x", err );
         if( r == 1 && err == 0 )
         {
            g.gdxClose();
         }
         remove( bad.c_str() );
      }
   }
   remove( fn.c_str() );
}
std::unique_ptr<TGXFileObj> mkUsed( Ctx &c, Src &s )
{
   auto g = mk();
   if( s.chance( 1, 3 ) )
   {
      previousLife( c, s, *g );
      c.label( "object with an earlier life" );
   }
   return g;
}
void openWrite( Ctx &c, TGXFileObj &g, const std::string &fn, int compr, const char *producer )
{
   int e = -12345;
   int r = g.gdxOpenWriteEx( fn.c_str(), producer, compr, e );
   c.check( r == 1 && e == 0, "opening a new file for writing returned ", r, " error ", e );
}
void openRead( Ctx &c, TGXFileObj &g, const std::string &fn )
{
   int e = -12345;
   int r = g.gdxOpenRead( fn.c_str(), e );
   c.check( r == 1 && e == 0, "opening a completely written file for reading returned ", r, " error ", e );
}
void closeOk( Ctx &c, TGXFileObj &g )
{
   int r = g.gdxClose();
   c.check( r == 0, "closing returned ", r );
}

std::string keyStr( const Key &k )
{
   std::string r = "(";
   for( size_t i = 0; i < k.size(); i++ ) r += ( i ? "," : "" ) + std::to_string( k[i] );
   return r + ")";
}
std::string recStr( const Rec &r, int nv )
{
   std::string o = keyStr( r.k ) + "=";
   for( int i = 0; i < nv; i++ ) o += ( i ? "," : "" ) + hexd( r.v[i] );
   return o;
}
bool sameVals( const V5 &a, const V5 &b, int nv )
{
   for( int i = 0; i < nv; i++ )
      if( bitsOf( a[i] ) != bitsOf( b[i] ) ) return false;
   return true;
}

static void poison( V5 &v ) { v.fill( -98765.4321 ); }

std::vector<StrRec> readStr( Ctx &c, TGXFileObj &g, int sy, int dim, int type, int *nrecs )
{
   int n = -7;
   c.check( g.gdxDataReadStrStart( sy, n ) == 1, "string read of symbol ", sy, " does not start" );
   if( nrecs ) *nrecs = n;
   std::vector<StrRec> out;
   StrKeys sk;
   const size_t cap = n > 0 ? (size_t) n + 5 : 5;
   while( true )
   {
      StrRec r;
      poison( r.v );
      for( auto &b: sk.buf ) std::strcpy( b, "?unset?" );
      int fd = -9;
      if( !g.gdxDataReadStr( sk.p, r.v.data(), fd ) ) break;
      for( int i = 0; i < dim; i++ ) r.k.emplace_back( sk.buf[i] );
      r.fdim = fd;
      out.push_back( std::move( r ) );
      c.check( out.size() <= cap, "string read of symbol ", sy, " yields more than the ", n, " announced records" );
   }
   (void) type;
   c.check( g.gdxDataReadDone() == 1, "read done after a complete read is rejected" );
   return out;
}
std::vector<RawRec> readRaw( Ctx &c, TGXFileObj &g, int sy, int dim, int type, int *nrecs )
{
   int n = -7;
   c.check( g.gdxDataReadRawStart( sy, n ) == 1, "raw read of symbol ", sy, " does not start" );
   if( nrecs ) *nrecs = n;
   std::vector<RawRec> out;
   const size_t cap = n > 0 ? (size_t) n + 5 : 5;
   while( true )
   {
      RawRec r;
      poison( r.v );
      int k[MAXDIM];
      std::fill( k, k + MAXDIM, -777 );
      int fd = -9;
      if( !g.gdxDataReadRaw( k, r.v.data(), fd ) ) break;
      r.k.assign( k, k + dim );
      r.fdim = fd;
      out.push_back( std::move( r ) );
      c.check( out.size() <= cap, "raw read of symbol ", sy, " yields more than the ", n, " announced records" );
   }
   (void) type;
   c.check( g.gdxDataReadDone() == 1, "read done after a complete read is rejected" );
   return out;
}

V5 defaultRec( int type, int user )
{
   V5 v {};
   if( type == GMS_DT_VAR )
   {
      int t = user >= 0 && user < GMS_VARTYPE_MAX ? user : GMS_VARTYPE_UNKNOWN;
      for( int i = 0; i < 5; i++ ) v[i] = gmsDefRecVar[t][i];
   }
   else if( type == GMS_DT_EQU )
   {
      int t = user >= GMS_EQU_USERINFO_BASE && user < GMS_EQU_USERINFO_BASE + GMS_EQUTYPE_MAX ? user - GMS_EQU_USERINFO_BASE : GMS_EQUTYPE_E;
      for( int i = 0; i < 5; i++ ) v[i] = gmsDefRecEqu[t][i];
   }
   return v;
}

static const Sym &dataSym( const Doc &d, const Sym &y )
{
   const Sym *p = &y;
   while( p->aliasOf > 0 ) p = &d.syms[p->aliasOf - 1];
   return *p;
}

void checkData( Ctx &c, TGXFileObj &g, const Doc &d )
{
   for( size_t n = 1; n <= d.syms.size(); n++ )
   {
      const Sym &y0 = d.syms[n - 1];
      const Sym &y = dataSym( d, y0 );
      std::vector<Rec> exp;
      if( y.aliasOf == 0 )
         for( size_t u = 1; u <= d.uels.size(); u++ ) exp.push_back( { { (int) u }, {} } );
      else
         exp = y.recs;
      int nv = nvals( y.type );
      if( y.dim == 0 && exp.empty() && y.aliasOf != 0 ) exp.push_back( { {}, defaultRec( y.type, y.user ) } );
      int nr {};
      auto sr = readStr( c, g, (int) n, y.dim, y.type, &nr );
      auto ctx = [&] { return "symbol " + std::to_string( n ) + " '" + y0.name + "' dim " + std::to_string( y.dim ) + " type " + std::to_string( y.type ) + ": "; };
      c.check( nr == (int) exp.size(), ctx(), "announced record count ", nr, ", written ", exp.size() );
      c.check( sr.size() == exp.size(), ctx(), "string read gives ", sr.size(), " records, written ", exp.size() );
      auto rr = readRaw( c, g, (int) n, y.dim, y.type, &nr );
      c.check( nr == (int) exp.size(), ctx(), "announced raw record count ", nr, ", written ", exp.size() );
      c.check( rr.size() == exp.size(), ctx(), "raw read gives ", rr.size(), " records, written ", exp.size() );
      for( size_t i = 0; i < exp.size(); i++ )
      {
         const auto &e = exp[i];
         c.check( rr[i].k == e.k, ctx(), "record ", i, " raw keys ", keyStr( rr[i].k ), " expected ", keyStr( e.k ) );
         for( int k = 0; k < y.dim; k++ )
         {
            bool known = e.k[k] >= 1 && e.k[k] <= (int) d.uels.size();
            std::string want = known ? d.uels[e.k[k] - 1] : "?L__" + std::to_string( e.k[k] );
            c.check( sr[i].k[k] == want, ctx(), "record ", i, " label ", k + 1, " is ", q( sr[i].k[k] ), " expected ", q( want ) );
         }
         V5 ev = e.v;
         for( auto &x: ev ) x = canonical( x );
         c.check( sameVals( rr[i].v, ev, nv ), ctx(), "record ", i, " raw values ", recStr( { rr[i].k, rr[i].v }, nv ), " expected ", recStr( { e.k, ev }, nv ) );
         c.check( sameVals( sr[i].v, ev, nv ), ctx(), "record ", i, " string-read values ", recStr( { rr[i].k, sr[i].v }, nv ), " expected ", recStr( { e.k, ev }, nv ) );
         // first changed dimension
         int fd = 0;
         for( int k = 0; k < y.dim && !fd; k++ )
            if( !i || e.k[k] != exp[i - 1].k[k] ) fd = k + 1;
         if( d.anyScalarFdim && !y.dim ) continue;
         c.check( rr[i].fdim == fd && sr[i].fdim == fd, ctx(), "record ", i, " first changed dimension raw ", rr[i].fdim, " string ", sr[i].fdim, " expected ", fd );
      }
   }
}

void checkMeta( Ctx &c, TGXFileObj &g, const Doc &d )
{
   int sc = -1, uc = -1;
   c.check( g.gdxSystemInfo( sc, uc ) == 1, "system info failed" );
   c.check( sc == (int) d.syms.size(), "symbol count ", sc, " expected ", d.syms.size() );
   c.check( uc == (int) d.uels.size(), "label count ", uc, " expected ", d.uels.size() );
   char buf[512];
   for( size_t n = 1; n <= d.syms.size(); n++ )
   {
      const Sym &y = d.syms[n - 1];
      auto ctx = [&] { return "symbol " + std::to_string( n ) + " '" + y.name + "': "; };
      int dim = -1, typ = -1;
      std::memset( buf, 'x', sizeof buf - 1 );
      c.check( g.gdxSymbolInfo( (int) n, buf, dim, typ ) == 1, ctx(), "symbol info failed" );
      c.check( y.name == buf, ctx(), "name read back as ", q( buf ) );
      c.check( dim == y.dim, ctx(), "dimension ", dim, " expected ", y.dim );
      c.check( typ == y.type, ctx(), "type ", typ, " expected ", y.type );
      c.check( g.gdxSymbolDim( (int) n ) == y.dim, ctx(), "symbol dim query" );
      int rc = -1, ui = -1;
      c.check( g.gdxSymbolInfoX( (int) n, rc, ui, buf ) == 1, ctx(), "extended symbol info failed" );
      int wantRc = y.dim == 0 ? 1 : (int) y.recs.size();
      if( y.aliasOf >= 0 ) wantRc = y.dim == 0 ? 1 : 0;
      c.check( rc == wantRc, ctx(), "record count ", rc, " expected ", wantRc );
      c.check( ui == y.user, ctx(), "user info ", ui, " expected ", y.user );
      c.check( y.expl == buf, ctx(), "explanatory text ", q( buf ), " expected ", q( y.expl ) );
      int nr = -5;
      std::string nm = y.name;
      for( auto &ch: nm ) ch = up( ch );
      c.check( g.gdxFindSymbol( nm.c_str(), nr ) == 1 && nr == (int) n, ctx(), "lookup by name gives ", nr );
      for( size_t k = 0; k < y.comments.size(); k++ )
      {
         c.check( g.gdxSymbolGetComment( (int) n, (int) k + 1, buf ) == 1, ctx(), "comment ", k + 1, " missing" );
         c.check( y.comments[k] == buf, ctx(), "comment ", k + 1, " is ", q( buf ), " expected ", q( y.comments[k] ) );
      }
      c.check( g.gdxSymbolGetComment( (int) n, (int) y.comments.size() + 1, buf ) == 0, ctx(), "has more comments than written" );
      StrKeys sk;
      int dk = g.gdxSymbolGetDomainX( (int) n, sk.p );
      if( y.aliasOf < 0 )
      {
         c.check( dk == y.domKind, ctx(), "domain kind ", dk, " expected ", y.domKind );
         for( int k = 0; k < y.dim; k++ )
         {
            std::string want = y.dom.empty() ? "*" : y.dom[k];
            c.check( want == sk.buf[k], ctx(), "domain of index ", k + 1, " is ", q( sk.buf[k] ), " expected ", q( want ) );
         }
      }
   }
   int dim, typ;
   c.check( g.gdxSymbolInfo( (int) d.syms.size() + 1, buf, dim, typ ) == 0, "information about a symbol beyond the last one" );
   for( size_t u = 1; u <= d.uels.size(); u++ )
   {
      int m = -5;
      c.check( g.gdxUMUelGet( (int) u, buf, m ) == 1, "label ", u, " cannot be read" );
      c.check( d.uels[u - 1] == buf, "label ", u, " is ", q( buf ), " expected ", q( d.uels[u - 1] ) );
   }
   int m;
   c.check( g.gdxUMUelGet( (int) d.uels.size() + 1, buf, m ) == 0, "label beyond the last one" );
   for( size_t t = 0; t < d.texts.size(); t++ )
   {
      int node = -5;
      c.check( g.gdxGetElemText( (int) t, buf, node ) == 1, "set text ", t, " cannot be read" );
      c.check( d.texts[t] == buf, "set text ", t, " is ", q( buf ), " expected ", q( d.texts[t] ) );
   }
   int node;
   c.check( g.gdxGetElemText( (int) d.texts.size(), buf, node ) == 0, "set text beyond the last one" );
}

// ------------------------------------------------------------------ generators
std::vector<std::string> genPool( Src &s, int regime, bool allowEmpty )
{
   std::vector<std::string> pool;
   std::set<std::string> seen;
   auto add = [&]( const std::string &x ) {
      if( seen.insert( upper( x ) ).second ) pool.push_back( x );
   };
   if( allowEmpty && s.chance( 1, 12 ) ) add( "" );
   int special = s.range( 0, 10 );
   for( int i = 0; i < special; i++ ) add( genUel( s ) );
   int extra = 0;
   switch( regime )
   {
      case 0: extra = s.range( 1, 6 ); break;
      case 1: extra = s.range( 1, 600 ); break;
      case 2: extra = s.range( 1000, 4000 ); break;
      default: extra = s.range( 65530, 66500 ); break;
   }
   char pre = char( 'f' + s.range( 0, 3 ) );
   for( int i = 0; i < extra; i++ ) add( std::string( 1, pre ) + std::to_string( i ) );
   return pool;
}

std::vector<Rec> genRecs( Src &s, int dim, int type, int P, int regime, const GenOpt &o, int ntexts )
{
   std::vector<Rec> out;
   int nv = nvals( type );
   auto vals = [&] {
      V5 v {};
      if( type == GMS_DT_SET )
         v[0] = ntexts > 0 && s.chance( 1, 2 ) ? s.range( 0, ntexts ) : 0;
      else
      {
         bool simple = o.trivialVals || s.chance( 1, 3 );
         for( int i = 0; i < nv; i++ ) v[i] = simple ? double( s.range( 0, 9 ) ) : genDouble( s );
      }
      return v;
   };
   if( dim == 0 )
   {
      if( s.chance( 3, 4 ) ) out.push_back( { {}, vals() } );
      return out;
   }
   int want = regime == 0 ? s.size( 25 ) : ( regime == 1 ? s.size( std::min( o.maxRecs, 400 ) ) : s.range( 0, std::min( o.maxRecs, regime == 2 ? 1500 : 300 ) ) );
   std::map<Key, V5> m;
   int style = s.weighted( { 4, 3, 3, 2 } );
   Key cur( dim, 1 );
   // candidate key values
   std::vector<int> cand;
   if( style == 2 )
   {
      // hit the boundaries of the key width (span 255/256/65535/65536) and of the
      // small-step encoding (step 254-dim)
      int span = 1;
      switch( s.weighted( { 3, 3, 2 } ) )
      {
         case 0: span = s.range( 252, 259 ); break;
         case 1: span = s.range( 65532, 65540 ); break;
         default: span = s.range( 1, 30 ); break;
      }
      span = std::min( span, P );
      int lo = s.range( 1, P - span + 1 );
      cand = { lo, lo + span - 1, std::min( lo + 1, lo + span - 1 ), lo + span / 2 };
      for( int i = 0; i < 4; i++ )
      {
         int st = 254 - dim + s.range( -2, 2 );
         if( lo + st * ( i + 1 ) <= lo + span - 1 ) cand.push_back( lo + st * ( i + 1 ) );
      }
   }
   for( int i = 0; i < want; i++ )
   {
      Key k( dim );
      switch( style )
      {
         case 0:
            for( auto &x: k ) x = s.range( 1, P );
            break;
         case 1:// local change of the previous key
         {
            k = cur;
            int p = s.range( 0, dim - 1 );
            p = dim - 1 - p;
            k[p] = s.range( 1, P );
            break;
         }
         case 2:
            for( auto &x: k ) x = s.pick( cand );
            break;
         default:// steps in the last dimension
         {
            k = cur;
            int step = s.flip() ? 254 - dim + s.range( -2, 3 ) : s.range( 1, 3 );
            k[dim - 1] = k[dim - 1] + step > P ? s.range( 1, P ) : k[dim - 1] + step;
            if( s.chance( 1, 8 ) ) k[s.range( 0, dim - 1 )] = s.range( 1, P );
            break;
         }
      }
      cur = k;
      m[k] = vals();
   }
   for( auto &[k, v]: m ) out.push_back( { k, v } );
   return out;
}

Plan genPlan( Src &s, const GenOpt &o )
{
   Plan p;
   p.regime = o.big ? s.weighted( { 68, 22, 8, 2 } ) : s.weighted( { 60, 40 } );
   p.pool = genPool( s, p.regime, o.allowEmptyLabel );
   int ns = s.range( p.regime ? 1 : 0, o.maxSyms );
   if( o.rich )
   {
      std::set<std::string> seen { "" };
      int nt = s.size( 12 );
      for( int i = 0; i < nt; i++ )
      {
         std::string t = genText( s );
         if( seen.insert( goodText( t ) ).second ) p.texts.push_back( t );
      }
   }
   std::set<std::string> names;
   std::vector<int> sets;
   for( int i = 0; i < ns; i++ )
   {
      SymPlan y;
      y.name = genIdent( s );
      while( !names.insert( upper( y.name ) ).second ) y.name = "S" + std::to_string( names.size() ) + "_" + std::to_string( i ) + y.name.substr( 0, 8 );
      if( o.rich && s.chance( 1, 5 ) )
      {// alias of an earlier set, of another alias, or of the universe
         y.type = GMS_DT_ALIAS;
         y.aliasOf = sets.empty() || s.chance( 1, 4 ) ? 0 : s.pick( sets );
         y.dim = y.aliasOf ? p.syms[y.aliasOf - 1].dim : 1;
         y.user = y.aliasOf;
         p.syms.push_back( y );
         sets.push_back( (int) p.syms.size() );
         continue;
      }
      int dc = s.weighted( { 3, 6, 5, 3, 2, 1 } );
      y.dim = dc < 4 ? dc : ( dc == 4 ? s.range( 4, 9 ) : s.range( 10, 20 ) );
      y.dim = std::min( y.dim, o.maxDim );
      y.type = s.range( 0, 3 );
      y.user = 0;
      if( y.type == GMS_DT_VAR ) y.user = s.range( 0, GMS_VARTYPE_MAX - 1 );
      else if( y.type == GMS_DT_EQU )
         y.user = GMS_EQU_USERINFO_BASE + s.range( 0, GMS_EQUTYPE_MAX - 1 );
      else if( y.type == GMS_DT_SET )
         y.user = s.range( 0, 1 );
      else if( s.chance( 1, 4 ) )
         y.user = s.range( -5, 1000 );
      if( o.meta ) y.expl = genText( s );
      y.recs = genRecs( s, y.dim, y.type, (int) p.pool.size(), p.regime, o, (int) p.texts.size() );
      if( o.rich )
      {
         if( s.chance( 1, 6 ) )
            for( int k = s.range( 1, 3 ); k > 0; k-- ) y.comments.push_back( genText( s ) );
         if( y.dim && s.chance( 1, 4 ) )
            for( int k = 0; k < y.dim; k++ ) y.domX.push_back( s.chance( 1, 3 ) ? "*" : genIdent( s ) );
      }
      if( y.type == GMS_DT_SET ) sets.push_back( i + 1 );
      p.syms.push_back( std::move( y ) );
   }
   return p;
}

std::string Plan::describe() const
{
   std::string r = std::to_string( pool.size() ) + " labels; ";
   for( auto &y: syms ) r += y.name.substr( 0, 10 ) + ":" + "spvea"[y.type] + std::to_string( y.dim ) + "x" + std::to_string( y.recs.size() ) + " ";
   return r;
}

WriteCfg genWriteCfg( Src &s, const Plan &p )
{
   WriteCfg w;
   w.compr = s.range( 0, 1 );
   w.regMode = s.range( 0, 2 );
   for( size_t i = 0; i < p.syms.size(); i++ )
   {
      int m = s.range( 0, 3 );
      if( m == W_MAP && w.regMode == 0 ) m = W_RAW;// raw registration gives no user numbers
      w.mode.push_back( m );
   }
   if( w.regMode == 2 )
   {
      int k = s.range( 0, 2 );
      int base = s.range( 1, 50 );
      int n = (int) p.pool.size();
      for( int i = 0; i < n; i++ )
         w.umap.push_back( k == 0 ? base + i : ( k == 1 ? base + 2 * i : base + n - i ) );
   }
   w.shuffle = s.flip();
   return w;
}

void registerPool( Ctx &c, TGXFileObj &g, const Plan &p, const WriteCfg &w, Doc &d )
{
   switch( w.regMode )
   {
      case 0: c.check( g.gdxUELRegisterRawStart() == 1, "raw registration does not start" ); break;
      case 1: c.check( g.gdxUELRegisterStrStart() == 1, "string registration does not start" ); break;
      default: c.check( g.gdxUELRegisterMapStart() == 1, "mapped registration does not start" ); break;
   }
   for( size_t i = 0; i < p.pool.size(); i++ )
   {
      int nr = -1;
      int r = w.regMode == 0 ? g.gdxUELRegisterRaw( p.pool[i].c_str() ) : ( w.regMode == 1 ? g.gdxUELRegisterStr( p.pool[i].c_str(), nr ) : g.gdxUELRegisterMap( w.umap[i], p.pool[i].c_str() ) );
      c.check( r == 1, "registration of label ", q( p.pool[i] ), " failed" );
      d.addUel( p.pool[i] );
      if( w.regMode == 1 ) c.check( nr == (int) i + 1, "label ", q( p.pool[i] ), " registered as number ", nr, " expected ", i + 1 );
   }
   c.check( g.gdxUELRegisterDone() == 1, "registration does not finish" );
}

void writeSym( Ctx &c, Src *s, TGXFileObj &g, const Plan &p, const SymPlan &sp, const WriteCfg &w, int mode, bool shuffle, Doc &d )
{
   Sym y;
   y.name = sp.name;
   y.dim = sp.dim;
   y.type = sp.type;
   y.user = sp.user;
   y.expl = goodText( sp.expl );
   if( sp.aliasOf >= 0 )
   {
      y.aliasOf = sp.aliasOf;
      std::string other = sp.aliasOf ? d.syms[sp.aliasOf - 1].name : "*";
      y.expl = "Aliased with " + other;
      bool swap = s && s->flip();
      int r = swap ? g.gdxAddAlias( sp.name.c_str(), other.c_str() ) : g.gdxAddAlias( other.c_str(), sp.name.c_str() );
      c.check( r == 1, "alias ", sp.name, " for ", other, " refused" );
      d.syms.push_back( std::move( y ) );
      return;
   }
   std::vector<int> order( sp.recs.size() );
   for( size_t i = 0; i < order.size(); i++ ) order[i] = (int) i;
   if( shuffle && s && ( mode == W_STR || mode == W_MAP ) )
   {
      uint64_t st = s->bits32() + 1;
      for( size_t i = order.size(); i > 1; i-- ) std::swap( order[i - 1], order[splitmix( st ) % i] );
   }
   int r = 0;
   int mn[MAXDIM], mx[MAXDIM];
   switch( mode )
   {
      case W_STR: r = g.gdxDataWriteStrStart( sp.name.c_str(), sp.expl.c_str(), sp.dim, sp.type, sp.user ); break;
      case W_MAP: r = g.gdxDataWriteMapStart( sp.name.c_str(), sp.expl.c_str(), sp.dim, sp.type, sp.user ); break;
      case W_RAW: r = g.gdxDataWriteRawStart( sp.name.c_str(), sp.expl.c_str(), sp.dim, sp.type, sp.user ); break;
      default:
         for( int k = 0; k < sp.dim; k++ )
         {
            mn[k] = (int) p.pool.size();
            mx[k] = 1;
            for( auto &rec: sp.recs )
            {
               mn[k] = std::min( mn[k], rec.k[k] );
               mx[k] = std::max( mx[k], rec.k[k] );
            }
            if( mn[k] > mx[k] ) mn[k] = mx[k];
         }
         r = g.gdxDataWriteRawStartKeyBounds( sp.name.c_str(), sp.expl.c_str(), sp.dim, sp.type, sp.user, mn, mx );
   }
   c.check( r == 1, "starting to write symbol ", sp.name, " failed (error ", r ? 0 : g.gdxGetLastError(), ")" );
   const char *sk[MAXDIM];
   int ik[MAXDIM];
   // Every other symbol is written as many callers do it: labels, numbers and values are put into buffers
   // that are used again for the next record, and that hold something else as soon as the call has returned.
   const bool reuse = ( d.syms.size() + sp.recs.size() ) % 2 == 1;
   static thread_local char kb[MAXDIM][300];
   for( int oi: order )
   {
      const Rec &rec = sp.recs[oi];
      auto vv = rec.v;
      for( int k = 0; k < sp.dim; k++ )
      {
         int e = rec.k[k];
         sk[k] = p.pool[e - 1].c_str();
         if( reuse && p.pool[e - 1].size() < sizeof( kb[k] ) )
         {
            memcpy( kb[k], sk[k], p.pool[e - 1].size() + 1 );
            sk[k] = kb[k];
         }
         ik[k] = mode == W_MAP ? ( w.regMode == 2 ? w.umap[e - 1] : e ) : e;
      }
      r = mode == W_STR ? g.gdxDataWriteStr( sk, vv.data() ) : ( mode == W_MAP ? g.gdxDataWriteMap( ik, vv.data() ) : g.gdxDataWriteRaw( ik, vv.data() ) );
      if( reuse )
      {
         for( int k = 0; k < sp.dim; k++ )
         {
            memcpy( kb[k], "\x7f!", 3 );
            ik[k] = -77;
         }
         for( auto &x: vv ) x = -5.5e55;
      }
      c.check( r == 1, "writing record ", recStr( rec, nvals( sp.type ) ), " of ", sp.name, " mode ", mode, " failed" );
   }
   c.check( g.gdxDataWriteDone() == 1, "finishing symbol ", sp.name, " failed" );
   c.check( g.gdxDataErrorCount() == 0, "error records after writing valid data of ", sp.name );
   for( auto &t: sp.comments )
   {
      c.check( g.gdxSymbolAddComment( (int) d.syms.size() + 1, t.c_str() ) == 1, "comment refused" );
      y.comments.push_back( t );
   }
   if( !sp.domX.empty() )
   {
      const char *dp[MAXDIM];
      bool any = false;
      std::map<std::string, std::string> first;
      for( auto &z: d.syms )
         for( auto &n: z.dom ) first.emplace( upper( n ), n );
      for( int k = 0; k < sp.dim; k++ )
      {
         dp[k] = sp.domX[k].c_str();
         y.dom.push_back( first.emplace( upper( sp.domX[k] ), sp.domX[k] ).first->second );
         any |= sp.domX[k] != "*";
      }
      c.check( g.gdxSymbolSetDomainX( (int) d.syms.size() + 1, dp ) == 1, "relaxed domain refused" );
      y.domKind = 2;
      (void) any;
   }
   y.recs = sp.recs;// pool order = entry order
   for( auto &rec: y.recs )
      if( y.type == GMS_DT_SET && rec.v[0] != 0 ) y.hasText = true;
   d.syms.push_back( std::move( y ) );
}

void writePlan( Ctx &c, Src &s, TGXFileObj &g, const Plan &p, const WriteCfg &w, Doc &d )
{
   registerPool( c, g, p, w, d );
   for( size_t i = 0; i < p.texts.size(); i++ )
   {
      int nr = -1;
      c.check( g.gdxAddSetText( p.texts[i].c_str(), nr ) == 1 && nr == (int) d.texts.size(), "set text ", q( p.texts[i] ), " got number ", nr, " expected ", d.texts.size() );
      d.texts.push_back( goodText( p.texts[i] ) );
   }
   for( size_t i = 0; i < p.syms.size(); i++ ) writeSym( c, &s, g, p, p.syms[i], w, w.mode[i], w.shuffle, d );
}
}// namespace vp
