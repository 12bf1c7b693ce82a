// C06 special values and doubles, C07 acronyms.
#include "model.hpp"
using namespace vp;

namespace
{
enum { SV_UND, SV_NA, SV_PIN, SV_MIN, SV_EPS, SV_NORMAL };
using SVTab = std::array<double, 5>;

SVTab defTab() { return { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS }; }

double genSpecial( Src &s )
{
   switch( s.weighted( { 4, 4, 3, 3, 2, 2 } ) )
   {
      case 0:
      {
         static const double x[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
         return x[s.range( 0, 4 )];
      }
      case 1: return s.range( -3, 12 );
      case 2:
      {
         static const double x[] = { std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0, 0.0, 0.5, std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), 1e-20, -1e20 };
         return x[s.range( 0, 8 )];
      }
      case 3: return fromBits( 0x7ff8000000000000ULL + s.range( 0, 5 ) );
      case 4: return fromBits( s.bits64() );
      default: return genDouble( s );
   }
}
SVTab genTab( Src &s, const SVTab &cur )
{
   if( s.chance( 1, 5 ) ) return defTab();
   SVTab t = cur;
   int how = s.range( 0, 2 );
   if( how == 0 ) t[s.range( 0, 4 )] = genSpecial( s );
   else if( how == 1 )
      for( auto &x: t ) x = genSpecial( s );
   else
   {// permute
      for( int i = 0; i < 4; i++ ) std::swap( t[i], t[s.range( i, 4 )] );
   }
   return t;
}
bool unique( const SVTab &t )
{
   for( int i = 0; i < 5; i++ )
      for( int j = i + 1; j < 5; j++ )
         if( bitsOf( t[i] ) == bitsOf( t[j] ) ) return false;
   return true;
}
// what the writer means by x: a special value or the number itself
struct Val {
   int sv;
   double x;
};
Val meaning( double x, const SVTab &t )
{
   for( int i = 0; i < 5; i++ )
      if( bitsOf( x ) == bitsOf( t[i] ) ) return { i, 0 };
   if( std::isnan( x ) ) return { SV_NA, 0 };
   if( std::isinf( x ) ) return { x > 0 ? SV_PIN : SV_MIN, 0 };
   if( x == 0 ) return { SV_NORMAL, 0.0 };
   return { SV_NORMAL, x };
}
double expect( const Val &v, const SVTab &rd ) { return v.sv == SV_NORMAL ? v.x : rd[v.sv]; }

// value close to or equal to what the tables name
double genVal( Src &s, const SVTab &t )
{
   for( int i = 0; i < 3; i++ )
   {
      double d;
      switch( s.weighted( { 4, 4, 3 } ) )
      {
         case 0: d = t[s.range( 0, 4 )]; return d;
         case 1: d = genDouble( s ); break;
         default:
         {
            uint64_t b = bitsOf( t[s.range( 0, 4 )] );
            d = fromBits( s.flip() ? b + 1 : ( s.flip() ? b - 1 : b ^ 0x8000000000000000ULL ) );
         }
      }
      if( std::isnan( d ) || std::isinf( d ) || d < GMS_SV_ACR ) return d;
   }
   return 1.25;
}

void checkTable( Ctx &c, TGXFileObj &g, const SVTab &t, Src &s )
{
   double a[GMS_SVIDX_MAX + 4] {};
   c.check( g.gdxGetSpecialValues( a ) == 1, "GetSpecialValues" );
   for( int i = 0; i < 5; i++ ) c.check( bitsOf( a[i] ) == bitsOf( t[i] ), "special value ", i, " is reported as ", hexd( a[i] ), " expected ", hexd( t[i] ) );
   for( int k = 0; k < 3; k++ )
   {
      double x = genVal( s, t );
      int sv = -7;
      int r = g.gdxMapValue( x, sv );
      int want = SV_NORMAL;
      for( int i = 4; i >= 0; i-- )
         if( bitsOf( x ) == bitsOf( t[i] ) ) want = i;
      c.check( sv == want && ( r != 0 ) == ( want != SV_NORMAL ), "value ", hexd( x ), " is classified as ", sv, " (returned ", r, "), expected ", want );
   }
}
}// namespace

VP_PROP( C06, special, "values written under a non-default special-value table, or read under one, of which at least one is special and one is not, were compared bit by bit", 80000, 1500000 )
{
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   SVTab cur = defTab();
   bool changedW {}, changedR {}, sp {}, norm {};
   auto setTab = [&]( TGXFileObj &h, SVTab &wr, SVTab *rd ) {
      int how = s.weighted( { 5, 1, rd ? 4 : 0 } );
      if( how == 1 )
      {
         c.check( h.gdxResetSpecialValues() == 1, "reset" );
         wr = defTab();
         if( rd ) *rd = wr;
         return;
      }
      SVTab n = genTab( s, how == 2 ? *rd : wr );
      double a[GMS_SVIDX_MAX + 4] {};
      h.gdxGetSpecialValues( a );
      for( int i = 0; i < 5; i++ ) a[i] = n[i];
      if( how == 2 )
      {// reading table, need not be unique
         c.check( h.gdxSetReadSpecialValues( a ) == 1, "SetReadSpecialValues" );
         *rd = n;
         changedR = true;
         return;
      }
      int r = h.gdxSetSpecialValues( a );
      c.check( r == ( unique( n ) ? 1 : 0 ), "SetSpecialValues returned ", r, " for a table that is ", unique( n ) ? "" : "not ", "unique" );
      if( r )
      {
         wr = n;
         if( rd ) *rd = n;
         ( rd ? changedR : changedW ) = true;
      }
      else
         c.check( h.gdxGetLastError() != 0, "refused special values raise no error" );
   };
   if( s.chance( 1, 3 ) )
   {// what was set before opening is forgotten by opening
      SVTab x = cur;
      setTab( *g, x, nullptr );
      changedW = false;
   }
   openWrite( c, *g, fn, s.flip() );
   checkTable( c, *g, cur, s );
   int nsym = s.range( 1, 3 );
   struct S {
      int dim, type, mode;
      std::vector<std::array<Val, 5>> v;
   };
   std::vector<S> syms;
   c.check( g->gdxUELRegisterRawStart() == 1, "register" );
   for( int i = 1; i <= 40; i++ ) c.check( g->gdxUELRegisterRaw( ( "l" + std::to_string( i ) ).c_str() ) == 1, "register" );
   c.check( g->gdxUELRegisterDone() == 1, "register" );
   for( int y = 0; y < nsym; y++ )
   {
      while( s.chance( 1, 2 ) ) setTab( *g, cur, nullptr );
      checkTable( c, *g, cur, s );
      S sy;
      sy.dim = s.weighted( { 1, 5 } );
      sy.type = s.range( 0, 3 );
      sy.mode = s.range( 0, 1 );// 0 raw 1 str
      std::string nm = "s" + std::to_string( y );
      int ui = sy.type == GMS_DT_VAR ? s.range( 0, 9 ) : ( sy.type == GMS_DT_EQU ? s.range( 53, 58 ) : 0 );
      c.check( ( sy.mode ? g->gdxDataWriteStrStart( nm.c_str(), "", sy.dim, sy.type, ui ) : g->gdxDataWriteRawStart( nm.c_str(), "", sy.dim, sy.type, ui ) ) == 1, "start" );
      int n = sy.dim ? s.range( 0, 12 ) : s.range( 0, 1 );
      for( int i = 1; i <= n; i++ )
      {
         if( !sy.mode && s.chance( 1, 8 ) ) setTab( *g, cur, nullptr );
         V5 v {};
         std::array<Val, 5> m {};
         for( int k = 0; k < nvals( sy.type ); k++ )
         {
            v[k] = genVal( s, cur );
            m[k] = meaning( v[k], cur );
            ( m[k].sv == SV_NORMAL ? norm : sp ) = true;
         }
         if( sy.mode )
         {
            std::string l = "l" + std::to_string( i );
            const char *k[1] = { l.c_str() };
            c.check( g->gdxDataWriteStr( k, v.data() ) == 1, "write" );
         }
         else
         {
            int k[1] = { i };
            c.check( g->gdxDataWriteRaw( k, v.data() ) == 1, "write" );
         }
         sy.v.push_back( m );
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      if( n == 0 && sy.dim == 0 )
      {
         V5 dr = defaultRec( sy.type, ui );
         std::array<Val, 5> m {};
         for( int k = 0; k < nvals( sy.type ); k++ ) m[k] = meaning( dr[k], defTab() );
         sy.v.push_back( m );
      }
      syms.push_back( sy );
   }
   closeOk( c, *g );
   auto h = s.flip() ? mkUsed( c, s ) : std::move( g );
   openRead( c, *h, fn );
   SVTab wr = defTab(), rd = wr;
   checkTable( c, *h, wr, s );
   int reads = s.range( 1, 4 );
   for( int r = 0; r < reads; r++ )
   {
      while( s.flip() ) setTab( *h, wr, &rd );
      checkTable( c, *h, wr, s );
      int y = s.range( 0, nsym - 1 );
      auto &sy = syms[y];
      int how = s.range( 0, 3 );
      int nrec {}, fd;
      size_t got {};
      auto cmp = [&]( const double *v, int lab ) {
         c.check( got < sy.v.size(), "too many records" );
         if( sy.dim ) c.check( lab == (int) got + 1, "wrong label" );
         for( int k = 0; k < nvals( sy.type ); k++ )
         {
            double e = expect( sy.v[got][k], rd );
            c.check( bitsOf( v[k] ) == bitsOf( e ), "symbol ", y + 1, " record ", got + 1, " field ", k, " reads ", hexd( v[k] ), " expected ", hexd( e ) );
         }
         got++;
      };
      V5 v {};
      if( how == 0 )
      {
         StrKeys k;
         c.check( h->gdxDataReadStrStart( y + 1, nrec ) == 1, "read start" );
         while( h->gdxDataReadStr( k.p, v.data(), fd ) ) cmp( v.data(), sy.dim ? atoi( k.p[0] + 1 ) : 0 );
      }
      else if( how == 1 )
      {
         int k[MAXDIM] {};
         c.check( h->gdxDataReadRawStart( y + 1, nrec ) == 1, "read start" );
         while( h->gdxDataReadRaw( k, v.data(), fd ) )
         {
            cmp( v.data(), k[0] );
            if( s.chance( 1, 8 ) ) setTab( *h, wr, &rd );
         }
      }
      else if( how == 2 )
      {
         std::vector<std::pair<int, V5>> all;
         c.check( h->gdxDataReadRawFastEx(
                          y + 1, []( const int *k, const double *vv, int, void *u ) {
                             V5 x {};
                             std::memcpy( x.data(), vv, sizeof( double ) * 5 );
                             ( (std::vector<std::pair<int, V5>> *) u )->push_back( { k[0], x } );
                             return 1;
                          },
                          nrec, &all ) == 1,
                  "callback read" );
         for( auto &[k, x]: all ) cmp( x.data(), k );
      }
      else
      {// user numbers against the label order: records are stored and sorted before delivery
         c.check( h->gdxUELRegisterMapStart() == 1, "register" );
         for( int i = 1; i <= 40; i++ ) h->gdxUELRegisterMap( 100 - i, ( "l" + std::to_string( i ) ).c_str() );
         c.check( h->gdxUELRegisterDone() == 1, "register" );
         int act[MAXDIM] = { 0 };
         int k[MAXDIM] {};
         c.check( h->gdxDataReadFilteredStart( y + 1, act, nrec ) == 1, "filtered start" );
         std::vector<std::pair<int, V5>> all;
         while( h->gdxDataReadMap( (int) all.size() + 1, k, v.data(), fd ) ) all.push_back( { 100 - k[0], v } );
         std::reverse( all.begin(), all.end() );
         for( auto &[kk, x]: all ) cmp( x.data(), kk );
      }
      if( how < 2 || how == 3 ) c.check( h->gdxDataReadDone() == 1, "read done" );
      c.check( got == sy.v.size(), "symbol ", y + 1, ": ", got, " records, expected ", sy.v.size() );
   }
   closeOk( c, *h );
   c.nontrivial = ( changedW || changedR ) && sp && norm;
   c.label( "writer remapped", changedW );
   c.label( "reader remapped", changedR );
   c.desc = std::to_string( nsym ) + " symbols, writer table " + ( changedW ? "changed" : "default" ) + ", reader table " + ( changedR ? "changed" : "default" );
}

// ------------------------------------------------------------------ acronyms
namespace
{
struct Acr {
   std::string name, text;
   int idx, map { -1 };
   bool autog {};
};
}// namespace

VP_PROP( C07, acronyms, "a file with at least two acronyms used in data was read with a reader mapping or automatic numbering in effect", 90000, 3000000 )
{
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.flip() );
   std::vector<Acr> A;
   std::set<std::string> symNames;
   auto find = [&]( int idx ) {
      for( size_t i = 0; i < A.size(); i++ )
         if( A[i].idx == idx ) return (int) i;
      return -1;
   };
   auto findN = [&]( const std::string &n ) {
      for( size_t i = 0; i < A.size(); i++ )
         if( sameCI( A[i].name, n ) ) return (int) i;
      return -1;
   };
   auto genIdx = [&]() { return s.weighted( { 6, 2, 1 } ) == 0 ? s.range( 1, 12 ) : ( s.flip() ? s.range( 1, 1000 ) : s.range( 1, 17000000 ) ); };
   auto genName = [&]() {
      if( !A.empty() && s.chance( 1, 5 ) ) return recase( s, s.pick( A ).name );
      return s.flip() ? "acr" + std::to_string( s.range( 0, 12 ) ) : genIdent( s );
   };
   auto text = [&]() { return s.flip() ? std::string( "text" ) : genText( s, 255 ); };
   auto checkAll = [&]( TGXFileObj &h, bool reading ) {
      c.check( h.gdxAcronymCount() == (int) A.size(), "acronym count ", h.gdxAcronymCount(), " expected ", A.size() );
      for( size_t i = 0; i < A.size(); i++ )
      {
         char n[256], t[256];
         int x = -7;
         c.check( h.gdxAcronymGetInfo( (int) i + 1, n, t, x ) == 1, "info of acronym ", i + 1 );
         c.check( A[i].name == n, "acronym ", i + 1, " is named ", q( n ), " expected ", q( A[i].name ) );
         c.check( A[i].text == t, "acronym ", i + 1, " has text ", q( t ), " expected ", q( A[i].text ) );
         c.check( x == A[i].idx, "acronym ", i + 1, " has index ", x, " expected ", A[i].idx );
         if( reading || A[i].map > 0 )
         {
            int o, nw, au;
            c.check( h.gdxAcronymGetMapping( (int) i + 1, o, nw, au ) == 1, "mapping of acronym ", i + 1 );
            c.check( o == A[i].idx && nw == A[i].map && ( au != 0 ) == A[i].autog, "mapping of acronym ", i + 1, " is ", o, "->", nw, " auto ", au, " expected ", A[i].idx, "->", A[i].map, " auto ", A[i].autog );
         }
      }
      int bad = s.flip() ? 0 : (int) A.size() + 1 + s.range( 0, 2 ), o, nw, au, x;
      if( s.chance( 1, 4 ) ) bad = -s.range( 1, 3 );
      char n[256], t[256];
      c.check( h.gdxAcronymGetInfo( bad, n, t, x ) == 0, "info of a missing acronym" );
      c.check( h.gdxAcronymGetMapping( bad, o, nw, au ) == 0, "mapping of a missing acronym" );
      c.check( h.gdxAcronymSetInfo( bad, "zzz", "", 3 ) == 0, "setting a missing acronym" );
      h.gdxGetLastError();
      int ix = genIdx();
      double v = h.gdxAcronymValue( ix );
      c.check( h.gdxAcronymIndex( v ) == ix, "index of the value of acronym ", ix, " is ", h.gdxAcronymIndex( v ) );
      c.check( h.gdxAcronymValue( 0 ) == 0 && h.gdxAcronymValue( -ix ) == 0, "value of a bad index" );
      double d = genDouble( s );
      if( std::isfinite( d ) ) c.check( h.gdxAcronymIndex( d ) == 0, "ordinary number ", hexd( d ), " is taken for an acronym" );
      for( double w: { HUGE_VAL, -HUGE_VAL, std::nan( "" ), d } )
      {
         if( std::isfinite( w ) && w >= GMS_SV_ACR ) continue;
         char nm[256] = "?";
         c.check( h.gdxAcronymIndex( w ) == 0 && h.gdxAcronymName( w, nm ) == 0 && !*nm, "the number ", hexd( w ), ", which is no acronym, has acronym index ", h.gdxAcronymIndex( w ), " and name ", q( nm ) );
      }
   };
   struct S {
      int type;
      std::vector<std::array<std::pair<int, double>, 5>> v;// (acronym index or 0, number)
   };
   std::vector<S> syms;
   int ops = s.range( 1, 14 );
   std::set<int> usedInData;
   for( int op = 0; op < ops; op++ )
   {
      switch( s.weighted( { 4, 4, 2, 1 } ) )
      {
         case 0:
         {
            std::string n = genName(), t = text();
            int ix = genIdx();
            if( !A.empty() && s.chance( 1, 5 ) ) ix = s.pick( A ).idx;
            if( symNames.count( upper( n ) ) ) break;
            int byName = findN( n ), byIdx = find( ix );
            int want = byName < 0 && byIdx < 0 ? (int) A.size() + 1 : ( byName >= 0 && byName == byIdx ? 0 : -1 );
            int r = g->gdxAcronymAdd( n.c_str(), t.c_str(), ix );
            c.check( r == want, "adding acronym ", q( n ), " with index ", ix, " returns ", r, " expected ", want );
            if( want > 0 ) A.push_back( { n, goodText( t ), ix, ix } );
            g->gdxGetLastError();
            break;
         }
         case 1:
         {// a symbol with values
            std::string n = "sym" + std::to_string( syms.size() );
            if( findN( n ) >= 0 ) break;
            S sy;
            sy.type = s.range( 1, 3 );
            bool str = s.flip();
            c.check( ( str ? g->gdxDataWriteStrStart( n.c_str(), "", 1, sy.type, 0 ) : g->gdxDataWriteRawStart( n.c_str(), "", 1, sy.type, 0 ) ) == 1, "start" );
            symNames.insert( upper( n ) );
            int k = s.range( 0, 8 );
            for( int i = 1; i <= k; i++ )
            {
               V5 v {};
               std::array<std::pair<int, double>, 5> m {};
               for( int f = 0; f < nvals( sy.type ); f++ )
               {
                  if( s.flip() )
                  {
                     int ix = !A.empty() && s.chance( 2, 3 ) ? s.pick( A ).idx : genIdx();
                     v[f] = g->gdxAcronymValue( ix );
                     m[f] = { ix, 0 };
                  }
                  else
                  {
                     v[f] = genDouble( s );
                     m[f] = { 0, canonical( v[f] ) };
                  }
               }
               if( str )
               {
                  std::string l = "l" + std::to_string( 100 + i );
                  const char *kk[1] = { l.c_str() };
                  c.check( g->gdxDataWriteStr( kk, v.data() ) == 1, "write" );
               }
               else
               {
                  int kk[1] = { i };
                  c.check( g->gdxDataWriteRaw( kk, v.data() ) == 1, "write" );
               }
               sy.v.push_back( m );
            }
            c.check( g->gdxDataWriteDone() == 1, "done" );
            for( auto &m: sy.v )
               for( int f = 0; f < nvals( sy.type ); f++ )
                  if( m[f].first )
                  {
                     usedInData.insert( m[f].first );
                     if( find( m[f].first ) < 0 ) A.push_back( { "", "", m[f].first } );
                  }
            syms.push_back( sy );
            break;
         }
         case 2:
         {
            if( A.empty() ) break;
            int i = s.range( 0, (int) A.size() - 1 );
            std::string n = s.chance( 1, 8 ) ? genIdentAny( s ) : genName(), t = text();
            if( n.size() > 63 ) break;
            int ix = s.chance( 1, 6 ) ? genIdx() : A[i].idx;
            bool ok = goodIdent( n ) && findN( n ) < 0 && !symNames.count( upper( n ) ) && ix == A[i].idx;
            int r = g->gdxAcronymSetInfo( i + 1, n.c_str(), t.c_str(), ix );
            c.check( r == ( ok ? 1 : 0 ), "naming acronym ", i + 1, " ", q( n ), " with index ", ix, " returns ", r );
            if( ok ) A[i].name = n, A[i].text = goodText( t );
            g->gdxGetLastError();
            break;
         }
         default: checkAll( *g, false );
      }
   }
   checkAll( *g, false );
   closeOk( c, *g );
   for( auto &a: A )
      if( a.name.empty() ) a.name = "UnknownACRO" + std::to_string( a.idx );
   auto h = mkUsed( c, s );
   openRead( c, *h, fn );
   bool mapped {}, multi {}, toNA {};
   int next = 0;
   for( auto &a: A ) a.map = -1, a.autog = false;
   int rops = s.range( 1, 8 );
   for( int op = 0; op < rops; op++ )
   {
      switch( s.weighted( { 4, 3, 2, 1, 1, 1 } ) )
      {
         case 0:
         {
            if( syms.empty() ) break;
            int y = s.range( 0, (int) syms.size() - 1 );
            auto &sy = syms[y];
            int n, fd, k[MAXDIM];
            V5 v {};
            bool str = s.flip();
            StrKeys sk;
            c.check( ( str ? h->gdxDataReadStrStart( y + 1, n ) : h->gdxDataReadRawStart( y + 1, n ) ) == 1, "read start" );
            size_t got {};
            while( str ? h->gdxDataReadStr( sk.p, v.data(), fd ) : h->gdxDataReadRaw( k, v.data(), fd ) )
            {
               c.check( got < sy.v.size(), "too many records" );
               for( int f = 0; f < nvals( sy.type ); f++ )
               {
                  auto &[ix, num] = sy.v[got][f];
                  if( !ix )
                  {
                     c.check( bitsOf( v[f] ) == bitsOf( num ), "number ", hexd( num ), " reads ", hexd( v[f] ) );
                     continue;
                  }
                  if( toNA )
                  {
                     c.check( bitsOf( v[f] ) == bitsOf( GMS_SV_NA ), "acronym ", ix, " reads ", hexd( v[f] ), " although acronyms are mapped to NA" );
                     continue;
                  }
                  auto &a = A[find( ix )];
                  if( a.map <= 0 && next > 0 ) a.map = next++, a.autog = true;
                  int want = a.map > 0 ? a.map : a.idx;
                  c.check( h->gdxAcronymIndex( v[f] ) == want && v[f] == h->gdxAcronymValue( want ), "acronym ", q( a.name ), " with file index ", ix, " reads ", hexd( v[f] ), " (index ", h->gdxAcronymIndex( v[f] ), "), expected index ", want );
                  mapped = mapped || a.map > 0;
                  if( a.map <= 0 )
                  {// the name of a value under its own index
                     char nm[256];
                     bool clash = false;
                     for( auto &b: A ) clash = clash || ( &b != &a && b.idx == want );
                     if( !clash ) c.check( h->gdxAcronymName( v[f], nm ) == 1 && a.name == nm, "acronym value ", want, " is named ", q( nm ), " expected ", q( a.name ) );
                  }
               }
               got++;
            }
            c.check( h->gdxDataReadDone() == 1, "read done" );
            c.check( got == sy.v.size(), got, " records, expected ", sy.v.size() );
            break;
         }
         case 1:
         {// the reader's own index
            if( A.empty() ) break;
            int i = s.range( 0, (int) A.size() - 1 );
            if( A[i].autog )
            {// numbered automatically: can be named, once
               std::string n = s.chance( 1, 6 ) ? recase( s, A[i].name ) : genName(), t = text();
               if( n.size() > 63 ) break;
               bool ok = goodIdent( n ) && findN( n ) < 0 && !symNames.count( upper( n ) );
               int r = h->gdxAcronymSetInfo( i + 1, n.c_str(), t.c_str(), A[i].map );
               c.check( r == ( ok ? 1 : 0 ), "naming the automatically numbered acronym ", i + 1, " ", q( n ), " returns ", r );
               if( ok ) A[i].name = n, A[i].text = goodText( t ), A[i].autog = false;
               h->gdxGetLastError();
               break;
            }
            int ix = s.flip() ? s.range( 1, 30 ) : genIdx();
            std::string n = s.chance( 1, 6 ) ? genName() : recase( s, A[i].name );
            bool dup {};
            for( auto &b: A ) dup = dup || b.map == ix;
            bool ok = ix == A[i].map || ( sameCI( n, A[i].name ) && !dup );
            int r = h->gdxAcronymSetInfo( i + 1, n.c_str(), "", ix );
            c.check( r == ( ok ? 1 : 0 ), "mapping acronym ", q( A[i].name ), " (given as ", q( n ), ") to ", ix, " returns ", r );
            if( ok ) A[i].map = ix;
            h->gdxGetLastError();
            break;
         }
         case 2:
         {
            int nv = s.flip() ? s.range( 0, 40 ) : s.range( 1000, 5000 );
            if( s.chance( 1, 5 ) ) nv = -1;
            int r = h->gdxAcronymNextNr( nv );
            c.check( r == next, "next automatic acronym number is ", r, " expected ", next );
            if( nv >= 0 ) next = nv;
            break;
         }
         case 3: checkAll( *h, true ); break;
         case 4:
         {// an acronym of the reader's own
            std::string n = genName(), t = text();
            int ix = s.flip() ? s.range( 1, 30 ) : genIdx();
            if( symNames.count( upper( n ) ) || n.size() > 63 ) break;
            int byName = findN( n ), byIdx = find( ix );
            int want = byName < 0 && byIdx < 0 ? (int) A.size() + 1 : ( byName >= 0 && byName == byIdx ? 0 : -1 );
            int r = h->gdxAcronymAdd( n.c_str(), t.c_str(), ix );
            c.check( r == want, "adding acronym ", q( n ), " with index ", ix, " while reading returns ", r, " expected ", want );
            if( want > 0 ) A.push_back( { n, goodText( t ), ix, ix } );
            h->gdxGetLastError();
            break;
         }
         default:
            toNA = s.flip();
            h->gdxMapAcronymsToNaNSet( toNA );
      }
   }
   checkAll( *h, true );
   closeOk( c, *h );
   multi = usedInData.size() >= 2;
   c.nontrivial = multi && mapped;
   c.label( "acronyms", A.size() );
   c.label( "mapped reads", mapped );
   c.desc = std::to_string( A.size() ) + " acronyms, " + std::to_string( usedInData.size() ) + " used in data";
}
