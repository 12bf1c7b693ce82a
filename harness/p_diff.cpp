// C21: the compare tool reports exactly the differences of two files.
#include "tooldoc.hpp"
#include <cmath>
#include <dirent.h>

using namespace vp;

namespace
{
struct O {
   double eps {}, rel {};
   int field { -1 };
   bool fldOnly {}, diffOnly {}, defaults {}, domains {}, matrix {}, ignoreOrder {}, setDesc { true };
   bool haveId {}, haveSkip {};
   std::set<std::string> ids, skip;
   bool takes( const std::string &n ) const
   {
      return ( !haveId || ids.count( upper( n ) ) ) && ( !haveSkip || !skip.count( upper( n ) ) );
   }
   bool active( int f ) const { return field < 0 || f == field; }
};

const char *fieldName[] = { "Level", "Marginal", "Lower", "Upper", "Scale" };
const char *fieldOpt[] = { "L", "M", "Lo", "Up", "Scale" };

int svKind( double v )
{
   const double sv[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
   for( int i = 0; i < 5; i++ )
      if( bitsOf( v ) == bitsOf( sv[i] ) ) return i + 1;
   return 0;
}
std::string acrName( const TDoc &d, double v )
{
   if( v < GMS_SV_ACR ) return {};
   int idx = (int) std::lround( v / GMS_SV_ACR );
   for( auto &a: d.acrs )
      if( a.idx == idx ) return upper( a.name );
   return "UNKNOWNACRONYM" + std::to_string( idx );
}
struct Blurred {};// the outcome depends on the rounding of the comparison itself

bool same( const O &o, const TDoc &d1, const TDoc &d2, double a, double b )
{
   int ka = svKind( a ), kb = svKind( b );
   if( ka && kb ) return ka == kb;
   if( ka || kb ) return ( ka ? ka : kb ) == 5 && o.eps > 0 && std::fabs( ka ? b : a ) <= o.eps;
   std::string na = acrName( d1, a ), nb = acrName( d2, b );
   if( !na.empty() && !nb.empty() ) return na == nb;
   double diff = std::fabs( a - b );
   if( diff <= o.eps ) return true;
   if( o.rel <= 0 ) return false;
   double m = 1 + std::min( std::fabs( a ), std::fabs( b ) );
   double x = diff / m;
   if( x != o.rel && std::fabs( x / o.rel - 1 ) < 1e-9 ) throw Blurred {};
   return x <= o.rel;
}

using MKey = std::vector<std::string>;
struct Exp {
   bool uninteresting {};
   std::string status;// "" same
   bool keys {}, data {};// differences of which kind
   std::map<MKey, std::pair<V5, std::string>> out;// records of the difference file
   int dim {}, type {}, user {};
   bool written {};
   std::string key {};
};

// records of a symbol by key
struct Side {
   const TDoc &d;
   std::map<MKey, const TRec *> m;
   std::map<MKey, MKey> shown;
   std::vector<TRec> own;
};
void fillSide( Side &z, int sy, bool matrix, const std::map<std::string, std::string> &spelling )
{
   auto &d = z.d;
   const TSym &y0 = d.syms[sy - 1];
   int r = d.resolve( sy );
   if( !r )
   {
      z.own.reserve( d.uels.size() );
      for( size_t i = 0; i < d.uels.size(); i++ )
      {
         TRec t;
         t.k = { (int) i + 1 };
         z.own.push_back( t );
      }
   }
   const auto &recs = r ? d.syms[r - 1].recs : z.own;
   (void) y0;
   for( auto &t: recs )
   {
      MKey k, sh;
      for( int x: t.k )
      {
         std::string l = d.label( x );
         if( matrix ) k.push_back( std::to_string( x ) );
         else
            k.push_back( upper( l ) );
         sh.push_back( upper( l ) );
      }
      z.m[k] = &t;
      z.shown[k] = sh;
   }
   (void) spelling;
}

Exp compare( const O &o, const TDoc &d1, int s1, const TDoc &d2, int s2 )
{
   Exp e;
   auto &a = d1.syms[s1 - 1], &b = d2.syms[s2 - 1];
   auto ty = []( const TSym &y ) { return y.type == GMS_DT_ALIAS ? (int) GMS_DT_SET : y.type; };
   if( ty( a ) != ty( b ) )
   {
      e.status = "Types are different";
      return e;
   }
   if( a.dim != b.dim )
   {
      e.status = "Dimensions are different";
      return e;
   }
   if( o.domains && a.dim )
   {
      auto dom = []( const TDoc &d, const TSym &y, int i ) {
         if( !y.domReg.empty() ) return y.domReg[i] ? upper( d.syms[y.domReg[i] - 1].name ) : std::string( "*" );
         if( !y.domX.empty() ) return upper( y.domX[i] );
         return std::string( "*" );
      };
      for( int i = 0; i < a.dim; i++ )
         if( dom( d1, a, i ) != dom( d2, b, i ) )
         {
            e.status = "Domains are different";
            return e;
         }
   }
   int type = ty( a ), dim = a.dim;
   bool ve = type == GMS_DT_VAR || type == GMS_DT_EQU;
   bool perField = ve && o.diffOnly;
   e.dim = dim + 1 + perField;
   bool tooBig = e.dim > MAXDIM;
   e.type = ve && ( o.fldOnly || o.diffOnly ) ? (int) GMS_DT_PAR : type;
   e.user = a.user;
   V5 def = toolDefault( type, a.user );
   Side z1 { d1, {}, {}, {} }, z2 { d2, {}, {}, {} };
   fillSide( z1, s1, o.matrix, {} );
   fillSide( z2, s2, o.matrix, {} );
   auto put = [&]( const MKey &shown, const char *act, const V5 &v, const std::string &text, const std::vector<bool> *which ) {
      auto k = shown;
      if( perField )
      {
         for( int f = 0; f < 5; f++ )
            if( ( *which )[f] )
            {
               auto kk = k;
               kk.push_back( upper( fieldName[f] ) );
               kk.push_back( upper( act ) );
               V5 w {};
               w[0] = v[f];
               e.out[kk] = { w, "" };
            }
         return;
      }
      k.push_back( upper( act ) );
      V5 w = v;
      if( ve && o.fldOnly )
      {
         w = {};
         w[0] = v[o.field];
      }
      e.out[k] = { w, text };
   };
   std::vector<bool> act( 5 );
   for( int f = 0; f < 5; f++ ) act[f] = o.active( f );
   auto ins = [&]( const MKey &shown, const TRec &r, bool one ) {
      bool dflt = false;
      auto eq = [&]( double v, double w ) { return same( o, one ? d1 : d1, d2, v, w ); };
      if( type == GMS_DT_PAR ) dflt = eq( r.v[0], 0.0 );
      else if( ve )
      {
         dflt = true;
         for( int f = 0; f < 5 && dflt; f++ )
            if( act[f] && !eq( r.v[f], def[f] ) ) dflt = false;
      }
      if( dflt && !o.defaults ) return;
      e.keys = true;
      put( shown, one ? "ins1" : "ins2", r.v, r.text, &act );
   };
   for( auto &[k, r]: z1.m )
   {
      auto it = z2.m.find( k );
      if( it == z2.m.end() )
      {
         ins( z1.shown[k], *r, true );
         continue;
      }
      auto &r2 = *it->second;
      std::vector<bool> diff( 5 );
      bool any = false;
      if( type == GMS_DT_SET ) any = o.setDesc && r->text != r2.text;
      else
         for( int f = 0; f < ( ve ? 5 : 1 ); f++ )
            if( ( !ve || act[f] ) && !same( o, d1, d2, r->v[f], r2.v[f] ) ) any = diff[f] = true;
      if( !any ) continue;
      e.data = true;
      put( z1.shown[k], "dif1", r->v, r->text, &diff );
      put( z2.shown[k], "dif2", r2.v, r2.text, &diff );
   }
   for( auto &[k, r]: z2.m )
      if( !z1.m.count( k ) ) ins( z2.shown[k], *r, false );
   if( !e.keys && !e.data ) return e;
   if( tooBig )
   {
      e.status = "Dim >= maxdim & different";
      e.out.clear();
      return e;
   }
   e.written = true;
   e.status = e.keys && e.data ? "Keys|Data" : ( e.keys ? "Keys are different" : "Data are different" );
   return e;
}

double nudge( Src &s, const O &o, double v )
{
   if( svKind( v ) || v >= GMS_SV_ACR || std::fabs( v ) > 1e15 ) return s.range( 0, 3 );
   double e = o.eps > 0 && ( o.rel <= 0 || s.flip() ) ? o.eps : o.rel * ( 1 + std::fabs( v ) );
   if( e <= 0 ) e = 1e-9;
   switch( s.range( 0, 4 ) )
   {
      case 0: return v + e;
      case 1: return v - e;
      case 2: return v + e * 1.001;
      case 3: return v + e * 0.999;
      default: return v - e * 2;
   }
}

// second document: a changed copy of the first
TDoc mutate( Src &s, const TDoc &d1, const O &o, const TOpt &to )
{
   TDoc d = d1;
   int wild = s.range( 0, 3 );// 0: only relabelling, order and case
   std::vector<std::string> lab = d1.uels, extra;
   std::set<std::string> have;
   for( auto &u: lab ) have.insert( upper( u ) );
   if( wild )
      for( int i = s.range( 0, 3 ); i > 0; i-- )
      {
         std::string u = "new" + std::to_string( i );
         if( have.insert( upper( u ) ).second ) lab.push_back( u );
      }
   int nl = (int) lab.size();
   if( s.chance( 1, 3 ) )
      for( auto &a: d.acrs )
      {
         a.idx += 200;
         for( auto &y: d.syms )
            for( auto &r: y.recs )
               for( auto &v: r.v )
                  if( v >= GMS_SV_ACR && (int) std::lround( v / GMS_SV_ACR ) == a.idx - 200 ) v = acrVal( a.idx );
         a.name = recase( s, a.name );
      }
   auto touch = [&]( TSym &y, TRec &r ) {
      if( y.type == GMS_DT_SET ) r.text = s.flip() ? std::string() : goodText( genText( s, 40 ) );
      else
      {
         int nf = y.type == GMS_DT_PAR ? 1 : 5;
         int f = s.range( 0, nf - 1 );
         switch( s.range( 0, 3 ) )
         {
            case 0: r.v[f] = genToolVal( s, d, y.type, y.user, f ); break;
            case 1: r.v[f] = toolDefault( y.type, y.user )[f]; break;
            default: r.v[f] = canonical( nudge( s, o, r.v[f] ) ); break;
         }
      }
   };
   if( wild )
      for( auto &y: d.syms )
      {
         if( y.type == GMS_DT_ALIAS || s.chance( 1, 3 ) ) continue;
         bool drops = s.flip(), adds = s.flip(), changes = s.flip();
         if( !y.dim )
         {
            if( changes ) touch( y, y.recs[0] );
            continue;
         }
         std::vector<TRec> nr;
         for( auto &r: y.recs )
         {
            if( drops && s.chance( 1, 4 ) ) continue;
            nr.push_back( r );
            if( changes && s.chance( 1, 3 ) ) touch( y, nr.back() );
         }
         bool single = y.type == GMS_DT_SET && y.user == 1;
         if( adds && nl && !single )
         {
            std::set<Key> ks;
            for( auto &r: nr ) ks.insert( r.k );
            for( int n = s.range( 1, 4 ); n > 0; n-- )
            {
               TRec r;
               for( int k = 0; k < y.dim; k++ ) r.k.push_back( s.range( 1, nl ) );
               if( !ks.insert( r.k ).second ) continue;
               r.v = toolDefault( y.type, y.user );
               if( s.chance( 2, 3 ) ) touch( y, r );
               nr.push_back( r );
            }
         }
         y.recs = nr;
      }
   // labels: order, unused ones left out, spelling
   std::vector<char> used( nl + 1, 0 );
   for( auto &y: d.syms )
      for( auto &r: y.recs )
         for( int k: r.k )
            if( k <= nl ) used[k] = 1;
   std::vector<int> order;
   bool dropUnused = s.flip();
   for( int i = 1; i <= nl; i++ )
      if( used[i] || ( i <= (int) d1.uels.size() && !dropUnused ) || s.chance( 1, 3 ) ) order.push_back( i );
   if( !o.matrix && s.flip() )
      for( size_t i = 1; i < order.size(); i++ ) std::swap( order[i], order[s.range( 0, (int) i )] );
   std::vector<int> to_( nl + 1, 0 );
   d.uels.clear();
   bool rc = s.flip();
   for( int i: order )
   {
      d.uels.push_back( rc ? recase( s, lab[i - 1] ) : lab[i - 1] );
      to_[i] = (int) d.uels.size();
   }
   // numbers without a label (matrix files) stay beyond the labels
   for( auto &y: d.syms )
   {
      for( auto &r: y.recs )
         for( auto &k: r.k ) k = k <= nl ? to_[k] : k + 100;
      std::sort( y.recs.begin(), y.recs.end(), []( const TRec &a, const TRec &b ) { return a.k < b.k; } );
   }
   // symbols
   auto sane = [&] {
      for( auto &y: d.syms )
         if( !y.domReg.empty() )
         {
            bool ok = true;
            for( int k = 0; k < y.dim && ok; k++ )
            {
               int ds = d.resolve( y.domReg[k] );
               if( !ds ) continue;
               for( auto &r: y.recs )
               {
                  bool in = false;
                  for( auto &x: d.syms[ds - 1].recs ) in |= x.k[0] == r.k[k];
                  ok &= in;
               }
            }
            if( !ok )
            {
               for( int x: y.domReg ) y.domX.push_back( x ? d.syms[x - 1].name : "*" );
               y.domReg.clear();
            }
         }
   };
   sane();
   // from here on symbols are replaced or removed; references by number must not break
   auto referenced = [&]( int sy ) {
      for( auto &y: d.syms )
      {
         if( y.type == GMS_DT_ALIAS && y.aliasOf == sy ) return true;
         for( int x: y.domReg )
            if( x == sy ) return true;
      }
      return false;
   };
   std::map<std::string, std::string> spelling;
   for( auto &y: d.syms )
      if( s.chance( 1, 5 ) ) y.name = recase( s, y.name );
   if( wild )
   {
      for( int i = (int) d.syms.size(); i >= 1; i-- )
      {
         if( referenced( i ) ) continue;
         auto &y = d.syms[i - 1];
         int k = s.weighted( { 12, 1, 1, 1, 1 } );
         if( k == 1 )
         {
            // remove: shift the references
            d.syms.erase( d.syms.begin() + ( i - 1 ) );
            for( auto &z: d.syms )
            {
               if( z.aliasOf > i ) z.aliasOf--;
               for( auto &x: z.domReg )
                  if( x > i ) x--;
            }
         }
         else if( ( k == 2 || k == 3 ) && y.type != GMS_DT_ALIAS )
         {
            TSym n;
            n.name = y.name;
            n.type = k == 2 ? s.range( 0, 3 ) : y.type;
            n.dim = k == 3 ? s.range( 0, 4 ) : y.dim;
            if( n.type == GMS_DT_EQU ) n.user = GMS_EQU_USERINFO_BASE + s.range( 0, GMS_EQUTYPE_MAX - 1 );
            else if( n.type == GMS_DT_VAR )
               n.user = s.range( 0, GMS_VARTYPE_MAX - 1 );
            n.recs = genToolRecs( s, d, n, to );
            y = n;
         }
         else if( k == 4 && y.dim && y.type != GMS_DT_ALIAS )
         {
            y.domReg.clear();
            y.domX.assign( y.dim, "*" );
            y.domX[s.range( 0, y.dim - 1 )] = "dom2";
         }
      }
      if( s.chance( 1, 3 ) )
      {
         TSym n;
         n.name = "added";
         if( !d.find( n.name ) )
         {
            n.type = s.range( 0, 3 );
            n.dim = s.range( 0, 3 );
            if( n.type == GMS_DT_EQU ) n.user = GMS_EQU_USERINFO_BASE;
            n.recs = genToolRecs( s, d, n, to );
            d.syms.push_back( n );
         }
      }
      // swap two symbols nobody refers to
      if( d.syms.size() >= 2 && s.chance( 1, 3 ) )
      {
         bool refs = false;
         for( auto &y: d.syms ) refs |= y.type == GMS_DT_ALIAS || !y.domReg.empty();
         if( !refs ) std::swap( d.syms[0], d.syms[d.syms.size() - 1] );
      }
   }
   for( auto &y: d.syms )
      for( auto &x: y.domX ) x = spelling.emplace( upper( x ), x ).first->second;
   return d;
}

std::string num( double v )
{
   char b[64];
   snprintf( b, sizeof b, "%.17g", v );
   return b;
}

O genO( Src &s, const TDoc &d1, std::vector<std::string> &a )
{
   O o;
   auto word = [&]( const std::string &w ) { return s.chance( 1, 3 ) ? recase( s, w ) : w; };
   auto par1 = [&]( const std::string &k, const std::string &v0 ) {
      const std::string v = s.chance( 1, 6 ) ? "'" + v0 + "'" : v0;
      if( s.chance( 1, 4 ) )
      {
         a.push_back( word( k ) );
         a.push_back( v );
      }
      else
         a.push_back( word( k ) + "=" + v );
   };
   const double es[] = { 0, 0.125, 0.001, 1e-9, 1, 0.5, 1000 };
   // of an option given several times the last counts
   auto par = [&]( const std::string &k, const std::string &v ) {
      for( int n = s.chance( 1, 5 ) ? s.range( 1, 2 ) : 0; n > 0; n-- )
         par1( k, k == "Field" ? fieldOpt[s.range( 0, 4 )] : k == "SetDesc" ? ( s.flip() ? "Y" : "N" ) : num( es[s.range( 0, 6 )] ) );
      par1( k, v );
   };
   if( s.chance( 1, 3 ) ) par( "Eps", num( o.eps = es[s.range( 0, 6 )] ) );
   if( s.chance( 1, 4 ) ) par( "RelEps", num( o.rel = es[s.range( 0, 5 )] ) );
   if( s.chance( 1, 3 ) )
   {
      int f = s.range( 0, 6 );
      if( f == 5 ) par( "Field", word( "All" ) );
      else if( f == 6 )
      {
         o.field = 4;
         par( "Field", word( "Prior" ) );
      }
      else
      {
         o.field = f;
         par( "Field", word( fieldOpt[f] ) );
      }
      if( o.field >= 0 && s.flip() )
      {
         o.fldOnly = true;
         a.push_back( word( "FldOnly" ) );
      }
   }
   if( !o.fldOnly && s.chance( 1, 4 ) )
   {
      o.diffOnly = true;
      a.push_back( word( "DiffOnly" ) );
   }
   if( s.chance( 1, 4 ) )
   {
      o.defaults = true;
      a.push_back( word( "CmpDefaults" ) );
   }
   if( s.chance( 1, 5 ) )
   {
      o.ignoreOrder = true;
      a.push_back( word( "IgnoreOrder" ) );
   }
   if( s.chance( 1, 4 ) )
   {
      o.setDesc = s.flip();
      const char *on[] = { "Y", "y", "1", "T" }, *off[] = { "N", "n", "0", "F" };
      if( o.setDesc && s.chance( 1, 4 ) )
      {
         if( s.flip() ) a.push_back( "SetDesc=N" );
         a.push_back( "SetDesc=''" );
      }
      else
         par( "SetDesc", o.setDesc ? on[s.range( 0, 3 )] : off[s.range( 0, 3 )] );
   }
   auto list = [&]( const char *k, bool &have, std::set<std::string> &ids ) {
      have = true;
      int reps = s.range( 1, 2 );
      for( int r = 0; r < reps; r++ )
      {
         std::vector<std::string> n;
         for( int i = s.range( 1, 6 ); i > 0; i-- )
         {
            if( d1.syms.empty() || s.chance( 1, 4 ) ) n.push_back( s.flip() ? "added" : "absent" + std::string( s.range( 0, 50 ), 'x' ) );
            else
               n.push_back( word( s.pick( d1.syms ).name ) );
         }
         std::string v;
         bool blank = false;
         for( size_t i = 0; i < n.size(); i++ )
         {
            ids.insert( upper( n[i] ) );
            if( i )
            {
               int j = s.range( 0, 2 );
               v += j == 0 ? "," : ( j == 1 ? " " : ", " );
               blank |= j > 0;
            }
            v += n[i];
         }
         a.push_back( word( k ) + "=" + v );
      }
   };
   if( s.chance( 1, 6 ) ) list( "ID", o.haveId, o.ids );
   if( s.chance( 1, 6 ) ) list( "SkipID", o.haveSkip, o.skip );
   return o;
}

std::string show( const MKey &k )
{
   std::string r;
   for( auto &x: k ) r += ( r.empty() ? "" : "." ) + q( x );
   return "(" + r + ")";
}

void runPair( Ctx &c, Src &s, const TDoc &d1, const TDoc &d2, const O &o, std::vector<std::string> args )
{
   writeTool( c, d1, c.path( "a.gdx" ), s.flip() );
   writeTool( c, d2, c.path( "b.gdx" ), s.flip() );
   std::map<std::string, Exp> exp;
   try
   {
      for( size_t i = 0; i < d1.syms.size(); i++ )
      {
         auto &n = d1.syms[i].name;
         if( !o.takes( n ) ) continue;
         int j = d2.find( n );
         Exp e;
         if( !j ) e.status = "Symbol not found in file 2";
         else
            e = compare( o, d1, (int) i + 1, d2, j );
         if( !e.status.empty() ) exp[upper( n )] = e;
      }
      for( auto &y: d2.syms )
         if( o.takes( y.name ) && !d1.find( y.name ) ) exp[upper( y.name )].status = "Symbol not found in file 1";
   }
   catch( Blurred & )
   {
      c.label( "rounding of the comparison" );
      return;
   }
   size_t ndiff = 0;
   for( auto &[n, e]: exp ) ndiff += e.out.size();
   c.nontrivial = ndiff >= 2 || ( exp.empty() && d1.syms.size() >= 2 );
   if( exp.empty() ) c.label( "no differences" );
   // file names and place of the output
   std::string f1 = "a.gdx", f2 = "b.gdx", out = "diffile.gdx";
   if( s.chance( 1, 4 ) ) f1 = "a";
   if( s.chance( 1, 4 ) ) f2 = "b";
   std::vector<std::string> a { f1, f2 };
   int w = s.range( 0, 3 );
   if( w == 1 )
   {
      out = "x y.gdx";
      a.push_back( s.flip() ? "x y.gdx" : "x y" );
   }
   else if( w == 2 )
   {
      out = "res.dat";
      a.push_back( "Output=res.dat" );
   }
   else if( w == 3 )
   {
      out = "res.gdx";
      a.push_back( "res" );
   }
   std::string old = "old content";
   if( s.chance( 1, 4 ) ) spitFile( c.path( out ), old );
   bool foreign = s.chance( 1, 5 );
   if( foreign ) spitFile( c.path( "tmpdifffile1.gdx" ), "mine" );
   for( auto &x: args ) a.push_back( x );
   std::string parFile;
   if( s.chance( 1, 5 ) )
   {
      // some of the options, or the whole call, from a parameter file
      std::string t = s.flip() ? "* options=none\n\n" : "";
      bool ok = true, any = false;
      size_t from = s.flip() ? 0 : s.range( 0, (int) a.size() - 1 );
      for( size_t i = from; i < a.size(); i++ )
      {
         ok &= a[i].find_first_of( " @" ) == std::string::npos;
         t += a[i] + ( s.chance( 1, 3 ) ? " " : "\n" );
         any = true;
         if( t.back() == '\n' && s.chance( 1, 6 ) ) t += s.flip() ? "*FldOnly\n" : "\n";
      }
      if( ok && any )
      {
         a.resize( from );
         int n = s.range( 0, 2 );
         parFile = n == 2 ? "my pars.txt" : "pars.txt";
         a.push_back( n == 0 ? "@pars" : n == 1 ? "@pars.txt" : s.flip() ? "@my pars.txt" : "@my pars" );
         spitFile( c.path( parFile ), t );
         c.desc += " parameter file " + q( t );
         c.label( "parameter file" );
      }
   }
   Run r = runTool( c, "gdxdiff", a );
   c.check( r.code == ( exp.empty() ? 0 : 1 ), "exit status ", r.code, " but ", exp.size(), " symbols differ: ", exp.empty() ? "" : exp.begin()->first + " " + exp.begin()->second.status, "\n", r.out, r.err );
   if( foreign ) c.check( slurpFile( c.path( "tmpdifffile1.gdx" ) ) == "mine", "a file of the user was overwritten" );
   // the summary
   std::map<std::string, std::string> seen;
   bool none = false, in = false;
   std::string line;
   for( char ch: r.out + "\n" )
   {
      if( ch != '\n' )
      {
         line += ch;
         continue;
      }
      if( line == "No differences found" ) none = true;
      else if( line == "Summary of differences:" )
         in = true;
      else if( line.compare( 0, 8, "Output: " ) == 0 )
      {
         in = false;
         c.check( line.substr( 8 ) == out, "output announced as ", q( line ), " expected ", out );
      }
      else if( in )
      {
         size_t b = line.find_first_not_of( ' ' );
         size_t e = b == std::string::npos ? b : line.find( "   ", b );
         c.check( e != std::string::npos, "summary line ", q( line ) );
         c.check( seen.emplace( upper( line.substr( b, e - b ) ), line.substr( e + 3 ) ).second, "symbol twice in the summary: ", q( line ) );
      }
      line.clear();
   }
   c.check( none == exp.empty(), "the report says ", none ? "no differences" : "differences", " but ", exp.size(), " symbols differ\n", r.out );
   for( auto &[n, e]: exp )
   {
      c.check( seen.count( n ), "difference of ", n, " (", e.status, ") not in the summary\n", r.out );
      if( e.status == "Keys|Data" ) c.check( seen[n] == "Keys are different" || seen[n] == "Data are different", n, " reported as ", seen[n] );
      else
         c.check( seen[n] == e.status, n, " reported as ", q( seen[n] ), " expected ", e.status );
   }
   for( auto &[n, t]: seen ) c.check( exp.count( n ), "summary reports ", n, ": ", t, ", which does not differ" );
   // the difference file
   SDoc D = readTool( c, c.path( out ) );
   size_t nsym = 0;
   for( auto &[n, e]: exp )
   {
      if( !e.written ) continue;
      nsym++;
      auto y = D.find( n );
      c.check( y, "symbol ", n, " missing in the difference file" );
      c.check( y->dim == e.dim && y->type == e.type, n, " in the difference file has dimension ", y->dim, " type ", y->type, " expected ", e.dim, " ", e.type );
      if( e.type == GMS_DT_VAR || e.type == GMS_DT_EQU ) c.check( y->user == e.user, n, " in the difference file has subtype ", y->user, " expected ", e.user );
      std::map<MKey, const SRec *> got;
      for( auto &x: y->recs ) c.check( got.emplace( upKeys( x.k ), &x ).second, n, " record twice ", show( x.k ) );
      for( auto &[k, v]: e.out )
      {
         auto it = got.find( k );
         c.check( it != got.end(), n, ": record ", show( k ), " missing in the difference file" );
         if( e.type == GMS_DT_SET ) c.check( it->second->text == v.second, n, show( k ), ": text ", q( it->second->text ), " expected ", q( v.second ) );
         else
            for( int f = 0; f < ( e.type == GMS_DT_PAR ? 1 : 5 ); f++ )
               c.check( bitsOf( it->second->v[f] ) == bitsOf( v.first[f] ), n, show( k ), " field ", f, " is ", hexd( it->second->v[f] ), " expected ", hexd( v.first[f] ) );
      }
      for( auto &[k, v]: got ) c.check( e.out.count( k ), n, ": record ", show( k ), " in the difference file is no difference" );
   }
   // the labels keep the order of the files compared, unless that is not wanted
   if( nsym && !o.ignoreOrder )
   {
      std::map<std::string, int> at;
      for( size_t i = 0; i < D.uels.size(); i++ ) at[upper( D.uels[i] )] = (int) i + 1;
      static const std::set<std::string> own { "INS1", "INS2", "DIF1", "DIF2", "LEVEL", "MARGINAL", "LOWER", "UPPER", "SCALE", "FILE1", "FILE2" };
      int last = 0;
      std::set<std::string> in1;
      for( int f = 0; f < 2; f++ )
         for( auto &u: f ? d2.uels : d1.uels )
         {
            std::string x = upper( u );
            if( own.count( x ) || !in1.insert( x ).second ) continue;
            c.check( at.count( x ), "label ", q( u ), " of file ", f + 1, " is not in the difference file" );
            c.check( at[x] > last, "label ", q( u ), " of file ", f + 1, " is out of order in the difference file" );
            last = at[x];
         }
   }
   if( o.ignoreOrder )
   {// no labels that nothing refers to
      std::set<std::string> used { "INS1", "INS2", "DIF1", "DIF2", "LEVEL", "MARGINAL", "LOWER", "UPPER", "SCALE", "FILE1", "FILE2" };
      for( auto &y: D.syms )
         for( auto &x: y.recs )
            for( auto &k: x.k ) used.insert( upper( k ) );
      for( auto &u: D.uels ) c.check( used.count( upper( u ) ), "label ", q( u ), " of the difference file belongs to no record" );
   }
   // the names of the two files
   c.check( D.syms.size() == nsym + 1, "difference file has ", D.syms.size(), " symbols, expected ", nsym + 1 );
   const SSym *fc = nullptr;
   for( auto &y: D.syms )
      if( !exp.count( upper( y.name ) ) || !exp[upper( y.name )].written ) fc = &y;
   c.check( fc && fc->dim == 1 && fc->type == GMS_DT_SET && fc->recs.size() == 2, "set of the compared files" );
   c.check( upper( fc->recs[0].k[0] ) == "FILE1" && fc->recs[0].text.substr( 0, 1 ) == "a", "compared file 1 ", q( fc->recs[0].text ) );
   c.check( upper( fc->recs[1].k[0] ) == "FILE2" && fc->recs[1].text.substr( 0, 1 ) == "b", "compared file 2 ", q( fc->recs[1].text ) );
   // nothing left behind
   std::set<std::string> files;
   if( DIR *dp = opendir( c.dir.c_str() ) )
   {
      while( auto e = readdir( dp ) ) files.insert( e->d_name );
      closedir( dp );
   }
   files.erase( "." );
   files.erase( ".." );
   std::set<std::string> want { "a.gdx", "b.gdx", out };
   if( foreign ) want.insert( "tmpdifffile1.gdx" );
   if( !parFile.empty() ) want.insert( parFile );
   for( auto &f: files ) c.check( want.count( f ), "file ", f, " left behind" );
}

void special( Src &s, TDoc &d )
{
   // labels the tool uses itself
   const char *own[] = { "ins1", "DIF1", "dif2", "Level", "UPPER", "Ins2", "File1" };
   if( s.chance( 1, 4 ) )
      for( auto &u: d.uels )
         if( s.chance( 1, 5 ) )
         {
            std::string n = own[s.range( 0, 6 )];
            bool dup = false;
            for( auto &x: d.uels ) dup |= sameCI( x, n );
            if( !dup ) u = n;
         }
   if( !d.syms.empty() && s.chance( 1, 12 ) )
   {
      auto &y = d.syms[s.range( 0, (int) d.syms.size() - 1 )];
      if( !d.find( "FilesCompared" ) ) y.name = s.flip() ? "FilesCompared" : "filescompared";
   }
}
}// namespace

VP_PROP( C21, records, "two files whose comparison yields at least two difference records, or two equal files of at least two symbols under different label numbering", 6000, 150000 )
{
   TOpt to;
   to.comments = false;
   to.unregistered = false;
   TDoc d1 = genTool( s, to );
   special( s, d1 );
   std::vector<std::string> args;
   O o = genO( s, d1, args );
   TDoc d2 = mutate( s, d1, o, to );
   c.desc = d1.describe() + " | " + d2.describe();
   for( auto &x: args ) c.desc += " " + x;
   runPair( c, s, d1, d2, o, args );
}

VP_PROP( C21, domains, "two files compared with their domains, yielding at least two difference records or none for at least two symbols", 1500, 40000 )
{
   TOpt to;
   to.comments = false;
   to.unregistered = false;
   to.aliases = false;
   TDoc d1 = genTool( s, to );
   std::vector<std::string> args;
   O o = genO( s, d1, args );
   o.domains = true;
   args.push_back( "CmpDomains" );
   TDoc d2 = mutate( s, d1, o, to );
   c.desc = d1.describe() + " | " + d2.describe();
   for( auto &x: args ) c.desc += " " + x;
   runPair( c, s, d1, d2, o, args );
}

VP_PROP( C21, matrix, "two files compared by label numbers, yielding at least two difference records or none for at least two symbols", 1500, 40000 )
{
   TOpt to;
   to.comments = false;
   to.unregistered = true;
   TDoc d1 = genTool( s, to );
   std::vector<std::string> args;
   O o = genO( s, d1, args );
   o.matrix = true;
   args.push_back( "MatrixFile" );
   TDoc d2 = mutate( s, d1, o, to );
   c.desc = d1.describe() + " | " + d2.describe();
   for( auto &x: args ) c.desc += " " + x;
   runPair( c, s, d1, d2, o, args );
}

VP_PROP( C21, refused, "a call the tool must refuse: missing or damaged file, bad option value, contradicting options", 1000, 20000 )
{
   TOpt to;
   to.maxSyms = 3;
   TDoc d = genTool( s, to );
   writeTool( c, d, c.path( "a.gdx" ), s.flip() );
   writeTool( c, d, c.path( "b.gdx" ), s.flip() );
   Run r {};
   int k = s.range( 0, 11 ), want = 2;
   c.desc = "refusal " + std::to_string( k );
   switch( k )
   {
      case 0:
         r = runTool( c, "gdxdiff", { "absent.gdx", "b.gdx" } );
         want = 3;
         break;
      case 1:
         r = runTool( c, "gdxdiff", { "a.gdx", "absent" } );
         want = 3;
         break;
      case 2:
         spitFile( c.path( "junk.gdx" ), std::string( s.range( 0, 200 ), char( s.range( 0, 255 ) ) ) );
         r = s.flip() ? runTool( c, "gdxdiff", { "a.gdx", "junk.gdx" } ) : runTool( c, "gdxdiff", { "junk", "b" } );
         want = 4;
         break;
      case 3: r = runTool( c, "gdxdiff", { "a.gdx" } ); break;
      case 4: r = runTool( c, "gdxdiff", {} ); break;
      case 5: r = runTool( c, "gdxdiff", { "a", "b", "Eps=" + std::string( s.flip() ? "-1" : "x1" ) } ); break;
      case 6: r = runTool( c, "gdxdiff", { "a", "b", "RelEps=" + std::string( s.flip() ? "-0.5" : "1.2.3" ) } ); break;
      case 7: r = runTool( c, "gdxdiff", { "a", "b", "Field=Levels" } ); break;
      case 8: r = runTool( c, "gdxdiff", { "a", "b", "FldOnly" } ); break;
      case 9: r = runTool( c, "gdxdiff", { "a", "b", "FldOnly", "Field=L", "DiffOnly" } ); break;
      case 10: r = runTool( c, "gdxdiff", { "a", "b", "SetDesc=Q" } ); break;
      default: r = runTool( c, "gdxdiff", { "a", "b", "@absent" } ); break;
   }
   c.check( r.code == want, "call ended with ", r.code, " expected ", want, "\n", r.out, r.err );
   auto e = slurpFile( c.path( "diffile.gdx" ) );
   c.check( e.empty(), "a difference file was written by a refused call" );
   if( DIR *dp = opendir( c.dir.c_str() ) )
   {
      std::string left;
      while( auto x = readdir( dp ) )
         if( std::string( x->d_name ).compare( 0, 7, "tmpdiff" ) == 0 ) left = x->d_name;
      closedir( dp );
      c.check( left.empty(), "temporary file ", left, " left behind" );
   }
   c.nontrivial = true;
}
