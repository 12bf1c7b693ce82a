// C20: what the dump tool prints, parsed back, is the file's content.
#include "tooldoc.hpp"

using namespace vp;

namespace
{
struct DOpt {
   char delim { '.' }, dec { '.' };
   bool noHeader {}, noData {}, filter { true };
   int dfmt {};// 0 normal 1 hexBytes 2 hexponential
   std::map<int, std::string> sv;// special value -> text
   std::string zero;
   bool zeroSet {};
};

const char *svTxt[] = { "Undf", "NA", "+Inf", "-Inf", "Eps" };
const double svVal[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
const char *svOpt[] = { "UndfOut", "NaOut", "PinfOut", "MinfOut", "EpsOut" };
const char *fieldTxt[] = { "L", "M", "LO", "UP", "SCALE" };
const char *varTxt[] = { "", "binary", "integer", "positive", "negative", "free", "sos1", "sos2", "semicont", "semiint" };
const char *kindTxt[] = { "Set", "Parameter", "Variable", "Equation", "Alias" };
const char *shortTxt[] = { "Set", "Par", "Var", "Equ", "Alias" };

// is the token what this value must be printed as?
void checkNum( Ctx &c, const TDoc &d, const DOpt &o, const std::string &tok, double v, const std::string &where )
{
   if( v >= GMS_SV_ACR )
   {
      int idx = (int) std::lround( v / GMS_SV_ACR );
      for( auto &a: d.acrs )
         if( a.idx == idx )
         {
            c.check( tok == a.name, where, ": acronym ", a.name, " printed as ", q( tok ) );
            return;
         }
      c.check( tok == "UnknownAcronym" + std::to_string( idx ), where, ": unknown acronym printed as ", q( tok ) );
      return;
   }
   for( int i = 0; i < 5; i++ )
      if( bitsOf( v ) == bitsOf( svVal[i] ) )
      {
         auto it = o.sv.find( i );
         std::string e = it == o.sv.end() ? svTxt[i] : it->second;
         c.check( tok == e, where, ": special value ", svTxt[i], " printed as ", q( tok ), " expected ", q( e ) );
         return;
      }
   if( v == 0.0 && o.zeroSet )
   {
      c.check( tok == o.zero, where, ": zero printed as ", q( tok ), " expected ", q( o.zero ) );
      return;
   }
   c.check( !tok.empty(), where, ": ", hexd( v ), " printed as nothing" );
   if( o.dfmt == 1 )
   {
      char b[32];
      snprintf( b, sizeof b, "0x%016llx", (unsigned long long) bitsOf( v ) );
      c.check( sameCI( tok, b ), where, ": ", hexd( v ), " printed as ", tok, " expected the bytes ", b );
      return;
   }
   std::string t = tok;
   if( o.dfmt == 2 )
   {
      c.check( t.find( "0x" ) != std::string::npos && t.find( 'p' ) != std::string::npos, where, ": ", hexd( v ), " printed as ", tok, ", which is no hexadecimal exponential form" );
      char *e;
      double w = strtod( t.c_str(), &e );
      c.check( !*e && w == v, where, ": ", hexd( v ), " printed as ", tok, " which is ", hexd( w ) );
      return;
   }
   for( char ch: t )
      c.check( ( ch >= '0' && ch <= '9' ) || ch == o.dec || ch == '-' || ch == '+' || ch == 'E' || ch == 'e', where, ": ", hexd( v ), " printed as ", q( tok ) );
   for( auto &ch: t )
      if( ch == o.dec ) ch = '.';
   char *e;
   double w = strtod( t.c_str(), &e );
   c.check( !*e, where, ": ", hexd( v ), " printed as ", q( tok ), " which is no number" );
   double x = strtod( num15( v ).c_str(), nullptr );
   c.check( w == x, where, ": ", hexd( v ), " printed as ", tok, " expected the 15 digit value ", num15( v ) );
}

// cursor over the printed text
struct Cur {
   Ctx &c;
   const std::string &t;
   size_t p {};
   std::vector<std::string> comments, directives, notes;
   Cur( Ctx &c_, const std::string &t_ ) : c( c_ ), t( t_ ) {}
   bool end() const { return p >= t.size(); }
   bool bol() const { return p == 0 || t[p - 1] == '\n'; }
   std::string here() const { return q( t.substr( p, 60 ) ); }
   std::string restOfLine()
   {
      size_t e = t.find( '\n', p );
      if( e == std::string::npos ) e = t.size();
      std::string r = t.substr( p, e - p );
      p = e < t.size() ? e + 1 : e;
      return r;
   }
   // lines that carry no data: blank lines, directives, comments
   void skipLines()
   {
      while( !end() && bol() )
      {
         if( t[p] == '\n' ) p++;
         else if( t[p] == '$' )
            directives.push_back( restOfLine() );
         else if( t.compare( p, 5, "**** " ) == 0 )
            notes.push_back( restOfLine() );
         else if( t[p] == '*' )
         {
            std::string l = restOfLine();
            c.check( l.compare( 0, 2, "* " ) == 0, "comment line ", q( l ) );
            comments.push_back( l.substr( 2 ) );
         }
         else
            break;
      }
   }
   bool lit( const std::string &x )
   {
      if( t.compare( p, x.size(), x ) ) return false;
      p += x.size();
      return true;
   }
   void need( const std::string &x, const std::string &what )
   {
      c.check( lit( x ), what, ": expected ", q( x ), " at ", here() );
   }
   void blanks()
   {
      while( !end() && t[p] == ' ' ) p++;
   }
   std::string word()
   {
      size_t b = p;
      while( !end() && ( isalnum( (unsigned char) t[p] ) || t[p] == '_' ) ) p++;
      return t.substr( b, p - b );
   }
   std::string quoted( const std::string &what )
   {
      c.check( !end() && ( t[p] == '\'' || t[p] == '"' ), what, ": expected a quoted string at ", here() );
      char qc = t[p];
      size_t e = t.find( qc, p + 1 );
      c.check( e != std::string::npos, what, ": unterminated string at ", here() );
      std::string r = t.substr( p + 1, e - p - 1 );
      p = e + 1;
      return r;
   }
   // up to, not including, one of the stop characters
   std::string until( const char *stops )
   {
      size_t b = p;
      while( !end() && !strchr( stops, t[p] ) ) p++;
      return t.substr( b, p - b );
   }
   // explanatory text in front of "/", ";": one blank, then quoted or plain
   std::string text( const std::string &what, bool &have, const char *stops, const std::string &after )
   {
      have = false;
      c.check( !end() && t[p] == ' ', what, ": blank expected at ", here() );
      if( t.compare( p, after.size(), after ) == 0 ) return {};
      size_t b = p;
      p++;
      if( !end() && ( t[p] == '\'' || t[p] == '"' ) )
      {
         have = true;
         return quoted( what );
      }
      until( stops );
      // the blank in front of the stop belongs to it
      c.check( p > b + 1 || !end(), what, ": text at ", here() );
      if( after[0] == ' ' )
      {
         c.check( p > b && t[p - 1] == ' ', what, ": blank expected in front of ", here() );
         p--;
      }
      have = true;
      std::string r = p >= b + 1 ? t.substr( b + 1, p - b - 1 ) : std::string();
      plain( r, ",;/$='\"", what );
      return r;
   }
   // what is printed without quotes must not hold characters that mean something else in the listing
   void plain( const std::string &r, const char *special, const std::string &what )
   {
      c.check( r.find_first_of( special ) == std::string::npos && r.find( ".." ) == std::string::npos, what, ": text ", q( r ), " is printed without quotes" );
   }
};

struct Item {
   std::vector<std::string> k;
   int field;
   std::string val;
};

std::vector<std::string> labels( const TDoc &d, const TRec &r )
{
   std::vector<std::string> v;
   for( int k: r.k ) v.push_back( d.label( k ) );
   return v;
}
std::string keyTxt( const std::vector<std::string> &k )
{
   std::string r = "(";
   for( auto &x: k ) r += q( x ) + " ";
   return r + ")";
}
bool stray( const TDoc &d, const TRec &r )
{
   for( int k: r.k )
      if( k < 1 || k > (int) d.uels.size() ) return true;
   return false;
}

// parse the items of a symbol; checks them against the document
void checkItems( Ctx &c, Cur &u, const TDoc &d, const DOpt &o, const TSym &y, bool header )
{
   std::string w = "symbol " + y.name;
   V5 def = toolDefault( y.type, y.user );
   bool first = true, multi = y.type == GMS_DT_VAR || y.type == GMS_DT_EQU;
   bool scalar = y.dim == 0 && y.type == GMS_DT_PAR;
   u.skipLines();
   for( auto &r: y.recs )
   {
      auto ks = labels( d, r );
      for( int f: { 0, 1, 2, 3, 4 } )
      {
         if( f && !multi ) break;
         bool skip = o.filter && y.type != GMS_DT_SET && !scalar && r.v[f] == def[f] && !( y.type == GMS_DT_EQU && ( f == 2 || f == 3 ) );
         if( skip ) continue;
         std::string wr = w + " record " + keyTxt( ks ) + ( multi ? std::string( " field " ) + fieldTxt[f] : "" );
         if( !first )
         {
            u.need( ",", wr );
            u.blanks();
            if( u.lit( "\n" ) ) u.skipLines();
         }
         first = false;
         for( int i = 0; i < y.dim; i++ )
         {
            if( i ) u.need( std::string( 1, o.delim ), wr );
            std::string l = u.quoted( wr );
            c.check( l == ks[i], wr, ": label ", i + 1, " printed as ", q( l ) );
         }
         if( y.type == GMS_DT_SET )
         {
            if( !r.text.empty() )
            {
               u.need( " ", wr );
               std::string t;
               if( !u.end() && ( u.t[u.p] == '\'' || u.t[u.p] == '"' ) ) t = u.quoted( wr );
               else
               {
                  t = u.until( ", \n/" );
                  u.plain( t, " ,;/$=*'\"", wr );
               }
               c.check( t == r.text, wr, ": text ", q( r.text ), " printed as ", q( t ), " at ", u.here() );
            }
         }
         else
         {
            if( multi )
            {
               if( y.dim ) u.need( std::string( 1, o.delim ), wr );
               std::string fw = u.word();
               c.check( fw == fieldTxt[f], wr, ": field printed as ", q( fw ) );
            }
            u.need( " ", wr );
            // the value ends at a comma followed by a blank, or at a blank or line end
            size_t b = u.p;
            while( !u.end() && u.t[u.p] != ' ' && u.t[u.p] != '\n' && !( u.t[u.p] == ',' && ( u.p + 1 >= u.t.size() || u.t[u.p + 1] == ' ' || u.t[u.p + 1] == '\n' ) ) ) u.p++;
            checkNum( c, d, o, u.t.substr( b, u.p - b ), r.v[f], wr );
         }
      }
   }
   if( header ) u.need( " /;\n", w + " after its " + std::to_string( y.recs.size() ) + " records" );
}

void checkDecl( Ctx &c, Cur &u, const TDoc &d, const DOpt &o, int sy, const std::string &inputName )
{
   auto &y = d.syms[sy - 1];
   std::string w = "symbol " + y.name;
   u.comments.clear();
   u.skipLines();
   c.check( u.comments.empty(), w, ": comments in front of the declaration" );
   u.notes.clear();
   auto wd = [&] {
      u.blanks();
      return u.word();
   };
   std::string sub;
   if( y.type == GMS_DT_SET && y.user == GMS_SETTYPE_SINGLETON ) sub = "Singleton";
   if( y.type == GMS_DT_VAR ) sub = varTxt[y.user >= 0 && y.user < GMS_VARTYPE_MAX ? y.user : GMS_VARTYPE_FREE];
   if( y.type == GMS_DT_EQU && y.user == GMS_EQU_USERINFO_BASE + GMS_EQUTYPE_B ) sub = "Logic";
   std::string at = u.here();
   std::string a = wd();
   if( !sub.empty() )
   {
      c.check( sameCI( a, sub ), w, ": declared as ", a, ", expected ", sub, " at ", at );
      a = wd();
   }
   bool scalar = y.type == GMS_DT_PAR && y.dim == 0;
   c.check( sameCI( a, scalar ? "Scalar" : kindTxt[y.type] ), w, ": declared as ", a, " at ", at );
   if( y.type == GMS_DT_ALIAS )
   {
      u.need( " (", w );
      c.check( u.word() == y.name, w, ": alias name" );
      u.need( ", ", w );
      std::string other = u.lit( "*" ) ? "*" : u.word();
      int au = d.resolve( sy );
      // an alias of an alias may name either
      c.check( other == ( y.aliasOf ? d.syms[y.aliasOf - 1].name : "*" ) || other == ( au ? d.syms[au - 1].name : "*" ), w, ": alias of ", other );
      u.need( ");\n", w );
      return;
   }
   std::string nm = wd();
   c.check( nm == y.name, w, ": declared with the name ", q( nm ), " at ", at );
   if( y.dim )
   {
      u.need( "(", w );
      for( int i = 0; i < y.dim; i++ )
      {
         if( i ) u.need( ",", w );
         std::string dn = u.lit( "*" ) ? "*" : u.word();
         std::string e = !y.domReg.empty() && y.domReg[i] ? d.syms[y.domReg[i] - 1].name : "*";
         c.check( dn == e, w, ": domain ", i + 1, " printed as ", dn, " expected ", e );
      }
      u.need( ")", w );
   }
   bool have;
   if( o.noData )
   {
      std::string txt;
      if( !y.expl.empty() ) txt = u.text( w, have, ";\n", "\n" );
      c.check( trimR( txt ) == trimR( y.expl ), w, ": text printed as ", q( txt ), " expected ", q( y.expl ) );
      u.blanks();
      if( u.lit( "\n" ) ) u.skipLines();
      u.blanks();
      u.need( ";", w );
      u.blanks();
      if( y.recs.empty() )
      {
         u.need( "!!empty\n", w );
         u.need( "$loadDC " + y.name + " !!empty\n", w );
      }
      else
      {
         u.need( "\n", w );
         u.need( "$loadDC " + y.name + "\n", w );
      }
      u.skipLines();
   }
   else
   {
      size_t at1 = u.p + 1;
      std::string txt = u.text( w, have, "/", " /" );
      while( at1 < u.t.size() && u.t[at1] == ' ' ) at1++;
      if( y.dim == 0 && have ) c.check( u.t[at1] != '(', w, ": the text of a symbol without indices starts with an unquoted parenthesis" );
      c.check( have == !y.expl.empty() && txt == y.expl, w, ": text printed as ", q( txt ), " expected ", q( y.expl ) );
      u.need( " /", w );
      if( y.recs.empty() )
      {
         if( scalar ) u.need( " 0.0", w );
         u.need( " /;\n", w );
         u.skipLines();
      }
      else
      {
         if( u.lit( "\n" ) ) u.skipLines();
         if( scalar ) { /* the value follows after one blank */ }
         checkItems( c, u, d, o, y, true );
         u.skipLines();
         bool bad = false;
         for( auto &r: y.recs ) bad |= stray( d, r );
         c.check( bad || u.notes.empty(), w, ": note about labels without a text: ", u.notes.empty() ? "" : u.notes[0] );
      }
   }
   c.check( u.comments == y.comments, w, ": ", u.comments.size(), " comments printed, expected ", y.comments.size(), u.comments.empty() ? "" : " first: " + q( u.comments[0] ) );
   u.comments.clear();
}

std::string spell( Src &s, const std::string &o )
{
   return s.flip() ? o : recase( s, o );
}
void addOpt( Src &s, std::vector<std::string> &a, const std::string &o, const std::string &v )
{
   switch( s.range( 0, 2 ) )
   {
      case 0: a.push_back( spell( s, o ) + "=" + v ); break;
      case 1:
         a.push_back( spell( s, o ) );
         a.push_back( "=" + v );
         break;
      default:
         a.push_back( spell( s, o ) );
         a.push_back( v );
         break;
   }
}
std::string svWord( Src &s )
{
   static const char *w[] = { "x", "eps", "N/A", "1e30", "''", "-", "inf" };
   return w[s.range( 0, 6 )];
}

DOpt genOpt( Src &s, std::vector<std::string> &a, bool csv )
{
   DOpt o;
   o.delim = csv ? ',' : '.';
   if( s.chance( 1, 3 ) )
   {
      static const std::pair<const char *, char> dl[] = { { "period", '.' }, { "comma", ',' }, { "tab", '\t' }, { "blank", ' ' }, { "semicolon", ';' } };
      int i = s.range( csv ? 1 : 0, 4 );// a period delimiter cannot be told from a decimal point
      addOpt( s, a, "Delim", spell( s, dl[i].first ) );
      o.delim = dl[i].second;
   }
   if( s.chance( 1, 3 ) )
   {
      bool cm = s.flip() && o.delim != ',';
      if( !cm && o.delim == '.' && csv )
         ;// a CSV file with period both as delimiter and in numbers cannot be told apart
      else
      {
         addOpt( s, a, "DecimalSep", spell( s, cm ? "comma" : "period" ) );
         o.dec = cm ? ',' : '.';
      }
   }
   if( s.chance( 1, 3 ) )
   {
      o.dfmt = s.range( 0, 2 );
      addOpt( s, a, "dFormat", spell( s, o.dfmt == 0 ? "normal" : o.dfmt == 1 ? "hexBytes" : "hexponential" ) );
   }
   for( int i = 0; i < 5; i++ )
      if( s.chance( 1, 12 ) )
      {
         std::string w = svWord( s );
         if( csv && w == "''" ) { o.sv[i] = ""; }
         else
         {
            if( w == "''" ) w = "zz";
            o.sv[i] = w;
         }
         addOpt( s, a, svOpt[i], w );
      }
   if( s.chance( 1, 10 ) )
   {
      o.zeroSet = true;
      o.zero = csv && s.flip() ? "" : "zero";
      addOpt( s, a, "ZeroOut", o.zero.empty() ? "''" : o.zero );
   }
   return o;
}

// file names: with or without the extension
std::string inName( Src &s ) { return s.flip() ? "in.gdx" : "in"; }

std::string getOutput( Ctx &c, Src &s, std::vector<std::string> a, const std::string &in, int expect )
{
   std::vector<std::string> v { in };
   bool file = s.chance( 1, 4 );
   if( file ) addOpt( s, v, "Output", "dump.txt" );
   v.insert( v.end(), a.begin(), a.end() );
   unlink( c.path( "dump.txt" ).c_str() );
   Run r = runTool( c, "gdxdump", v );
   c.check( r.code == expect, "gdxdump ended with ", r.code, " expected ", expect, " output: ", r.out.substr( 0, 300 ), r.err.substr( 0, 300 ) );
   if( file )
   {
      c.check( r.out.empty(), "text on the terminal though an output file was named: ", q( r.out.substr( 0, 100 ) ) );
      return slurpFile( c.path( "dump.txt" ) );
   }
   return r.out;
}

void checkAcronyms( Ctx &c, Cur &u, const TDoc &d )
{
   for( size_t i = 0; i < d.acrs.size(); i++ )
   {
      u.skipLines();
      u.need( "Acronym ", "acronym " + std::to_string( i + 1 ) );
      std::string n = u.word();
      c.check( n == d.acrs[i].name, "acronym ", i + 1, " printed as ", q( n ), " expected ", d.acrs[i].name );
      std::string t;
      bool have;
      if( u.t.compare( u.p, 1, ";" ) ) t = u.text( "acronym " + n, have, ";", ";" );
      c.check( t == d.acrs[i].text, "acronym ", n, ": text printed as ", q( t ), " expected ", q( d.acrs[i].text ) );
      u.need( ";\n", "acronym " + n );
   }
}

void checkUels( Ctx &c, Cur &u, const TDoc &d, const std::string &name )
{
   u.skipLines();
   u.need( "Set " + name, "label table" );
   if( d.uels.empty() )
   {
      u.need( "(*) / /;\n", "empty label table" );
      return;
   }
   u.need( " /\n", "label table" );
   for( size_t i = 0; i < d.uels.size(); i++ )
   {
      std::string w = "label table entry " + std::to_string( i + 1 );
      u.blanks();
      std::string l = u.quoted( w );
      c.check( l == d.uels[i], w, " printed as ", q( l ), " expected ", q( d.uels[i] ) );
      u.blanks();
      u.need( i + 1 < d.uels.size() ? ",\n" : "/;\n", w );
   }
}

size_t dataCount( const TDoc &d )
{
   size_t n = 0;
   for( auto &y: d.syms ) n += y.recs.size();
   return n;
}
}// namespace

VP_PROP( C20, listing, "a file with at least two records was printed as declarations and data and parsed back completely", 4000, 120000 )
{
   TOpt to;
   TDoc d = genTool( s, to );
   writeTool( c, d, c.path( "in.gdx" ), s.flip() );
   std::vector<std::string> a;
   DOpt o = genOpt( s, a, false );
   if( s.chance( 1, 4 ) ) addOpt( s, a, "Format", spell( s, "normal" ) );
   if( s.chance( 1, 3 ) )
   {
      o.filter = s.flip();
      addOpt( s, a, "FilterDef", o.filter ? ( s.flip() ? "Y" : "1" ) : ( s.flip() ? "N" : "0" ) );
   }
   int one = 0;
   if( !d.syms.empty() && s.chance( 1, 3 ) )
   {
      one = s.range( 1, (int) d.syms.size() );
      addOpt( s, a, "Symb", recase( s, d.syms[one - 1].name ) );
   }
   if( s.chance( 1, 5 ) )
   {
      o.noHeader = true;
      a.push_back( spell( s, "NoHeader" ) );
   }
   if( s.chance( 1, 6 ) )
   {
      o.noData = true;
      a.push_back( spell( s, "NoData" ) );
   }
   std::string ut;
   if( s.chance( 1, 4 ) )
   {
      ut = "uelset";
      addOpt( s, a, "UelTable", ut );
   }
   std::string in = inName( s );
   c.desc = d.describe();
   for( auto &x: a ) c.desc += " " + x;
   std::string t = getOutput( c, s, a, in, 0 );
   Cur u( c, t );
   if( o.noData )
   {
      u.need( "\n$gdxIn ", "listing without data" );
      std::string f = u.restOfLine();
      c.check( f == "in.gdx" || f == in, "listing without data names the file ", q( f ) );
   }
   u.skipLines();
   checkAcronyms( c, u, d );
   if( !ut.empty() ) checkUels( c, u, d, ut );
   if( !one )
   {
      for( size_t i = 0; i < d.syms.size(); i++ ) checkDecl( c, u, d, o, (int) i + 1, in );
      c.label( "all symbols" );
   }
   else if( !o.noHeader )
   {
      checkDecl( c, u, d, o, one, in );
      c.label( "one symbol" );
   }
   else
   {
      auto &y = d.syms[one - 1];
      c.label( "one symbol without header" );
      if( o.noData )
      {
         u.skipLines();
         u.restOfLine();
         if( y.type != GMS_DT_ALIAS ) c.check( t.find( "$loadDC " + y.name ) != std::string::npos, "no load line" );
         return;
      }
      u.skipLines();
      if( y.type == GMS_DT_ALIAS ) { c.check( u.end() || u.here() == q( "\n" ), "text for an alias without header: ", u.here() ); }
      else if( y.recs.empty() )
      {
         if( y.type == GMS_DT_PAR && !y.dim ) u.need( " / 0.0 /;\n", "empty scalar" );
      }
      else
         checkItems( c, u, d, o, y, false );
      if( !y.recs.empty() ) c.check( u.comments == y.comments, "comments" );
      u.comments.clear();
      while( !u.end() && ( u.t[u.p] == '\n' || u.t[u.p] == ' ' ) ) u.p++;
      if( u.lit( "**** " ) ) u.restOfLine();
   }
   u.skipLines();
   c.check( u.end(), "left over in the output: ", u.here() );
   c.nontrivial = dataCount( d ) >= 2 && !o.noData && ( !one || d.syms[one - 1].recs.size() >= 1 );
}

// ------------------------------------------------------------ CSV
namespace
{
std::vector<std::vector<std::string>> parseCsv( Ctx &c, const std::string &t, char delim, std::vector<std::string> &notes )
{
   std::vector<std::vector<std::string>> rows;
   size_t p = 0;
   while( p < t.size() )
   {
      if( t.compare( p, 5, "**** " ) == 0 )
      {
         size_t e = t.find( '\n', p );
         notes.push_back( t.substr( p, e - p ) );
         p = e == std::string::npos ? t.size() : e + 1;
         continue;
      }
      std::vector<std::string> row;
      std::string f;
      while( true )
      {
         if( p < t.size() && t[p] == '"' && delim != '\t' )
         {
            p++;
            while( true )
            {
               c.check( p < t.size(), "unterminated quoted field in row ", rows.size() + 1 );
               if( t[p] == '"' )
               {
                  if( p + 1 < t.size() && t[p + 1] == '"' )
                  {
                     f += '"';
                     p += 2;
                     continue;
                  }
                  p++;
                  break;
               }
               f += t[p++];
            }
            c.check( p >= t.size() || t[p] == delim || t[p] == '\n', "text after a quoted field in row ", rows.size() + 1, ": ", q( t.substr( p, 20 ) ) );
         }
         else
            while( p < t.size() && t[p] != delim && t[p] != '\n' ) f += t[p++];
         row.push_back( f );
         f.clear();
         if( p >= t.size() || t[p] == '\n' )
         {
            p++;
            break;
         }
         p++;
      }
      rows.push_back( row );
   }
   return rows;
}
}// namespace

VP_PROP( C20, csv, "a symbol with at least one record was printed as CSV and parsed back", 4000, 120000 )
{
   TOpt to;
   to.dim0sets = false;
   to.maxSyms = 4;
   TDoc d = genTool( s, to );
   if( d.syms.empty() ) return;
   writeTool( c, d, c.path( "in.gdx" ), s.flip() );
   std::vector<std::string> a;
   DOpt o = genOpt( s, a, true );
   addOpt( s, a, "Format", spell( s, "csv" ) );
   int sy = s.range( 1, (int) d.syms.size() );
   auto &y = d.syms[sy - 1];
   int rs = d.resolve( sy );
   addOpt( s, a, "Symb", recase( s, y.name ) );
   bool all = s.chance( 1, 3 ), stext = s.chance( 1, 2 ), cdim = s.chance( 1, 3 ), ownHdr = s.chance( 1, 6 );
   std::string hdr;
   if( all ) a.push_back( spell( s, "CSVAllFields" ) );
   if( stext ) a.push_back( spell( s, "CSVSetText" ) );
   if( cdim || s.chance( 1, 5 ) ) addOpt( s, a, "CDim", cdim ? "Y" : "N" );
   if( ownHdr )
   {
      hdr = s.flip() ? "my header" : "";
      addOpt( s, a, "Header", hdr.empty() ? "''" : hdr );
   }
   if( s.chance( 1, 4 ) )
   {
      o.noHeader = true;
      a.push_back( spell( s, "NoHeader" ) );
   }
   if( s.chance( 1, 8 ) ) addOpt( s, a, "FilterDef", s.flip() ? "Y" : "N" );// has no effect on CSV
   c.desc = d.describe() + " CSV of " + y.name.substr( 0, 10 );
   for( auto &x: a ) c.desc += " " + x;
   // records
   std::vector<TRec> recs;
   bool isSet = y.type == GMS_DT_SET || y.type == GMS_DT_ALIAS;
   if( rs ) recs = d.syms[rs - 1].recs;
   else
      for( size_t i = 0; i < d.uels.size(); i++ )
      {
         TRec r;
         r.k = { (int) i + 1 };
         recs.push_back( r );
      }
   bool multi = y.type == GMS_DT_VAR || y.type == GMS_DT_EQU;
   if( y.dim < 2 ) cdim = false;
   for( auto &r: recs )
      if( stray( d, r ) ) c.label( "label without text" );
   // a delimiter character inside an unquoted piece cannot be told apart; labels are quoted except with tab
   std::string t = getOutput( c, s, a, inName( s ), 0 );
   std::vector<std::string> notes;
   size_t from = 0;
   if( ownHdr )
   {
      if( !hdr.empty() )
      {
         c.check( t.compare( 0, hdr.size() + 1, hdr + "\n" ) == 0, "own header missing: ", q( t.substr( 0, 40 ) ) );
         from = hdr.size() + 1;
      }
   }
   auto rows = parseCsv( c, t.substr( from ), o.delim, notes );
   size_t ri = 0;
   std::vector<int> cols;
   if( cdim )
   {
      std::set<int> cs;
      for( auto &r: recs ) cs.insert( r.k.back() );
      cols.assign( cs.begin(), cs.end() );
   }
   if( !ownHdr && !o.noHeader )
   {
      c.check( !rows.empty(), "no header row" );
      auto &h = rows[0];
      ri = 1;
      int nk = cdim ? y.dim - 1 : y.dim;
      size_t want = nk + ( cdim ? std::max( cols.size(), size_t( 1 ) ) : isSet ? ( stext ? 1 : 0 ) : multi && all ? 5 : 1 );
      c.check( h.size() == want, "header has ", h.size(), " fields, expected ", want );
      std::vector<std::string> e;
      auto dn = [&]( int i ) -> std::string {
         const TSym &b = y.type == GMS_DT_ALIAS ? ( rs ? d.syms[rs - 1] : y ) : y;
         if( !b.domReg.empty() && b.domReg[i] ) return d.syms[b.domReg[i] - 1].name;
         if( !b.domX.empty() && b.domX[i] != "*" ) return b.domX[i];
         return "Dim" + std::to_string( i + 1 );
      };
      std::set<std::string> used;
      for( int i = 0; i < nk; i++ )
      {// the domain's name, made unique by a suffix when it occurs again
         std::string x = dn( i );
         if( y.type == GMS_DT_ALIAS ) continue;// domain information of aliases is not promised
         c.check( h[i] == x || ( h[i].compare( 0, x.size() + 1, x + "_" ) == 0 ), "header field ", i + 1, " is ", q( h[i] ), " expected ", q( x ), " (or with a suffix)" );
         if( used.count( x ) == 0 ) c.check( h[i] == x || y.type == GMS_DT_ALIAS, "header field ", i + 1, " is ", q( h[i] ), " expected ", q( x ) );
         c.check( used.insert( h[i] ).second, "header field ", i + 1, " repeats ", q( h[i] ) );
      }
      if( cdim )
         for( size_t i = 0; i < cols.size(); i++ ) c.check( h[nk + i] == d.label( cols[i] ), "column ", i + 1, " is headed ", q( h[nk + i] ), " expected ", q( d.label( cols[i] ) ) );
      else if( isSet )
      {
         if( stext ) c.check( h[nk] == "Text", "text column is headed ", q( h[nk] ) );
      }
      else
      {
         c.check( h[nk] == "Val", "value column is headed ", q( h[nk] ) );
         static const char *fn[] = { "Val", "Marginal", "Lower", "Upper", "Scale" };
         if( multi && all )
            for( int f = 1; f < 5; f++ ) c.check( h[nk + f] == fn[f], "column is headed ", q( h[nk + f] ), " expected ", fn[f] );
      }
   }
   if( cdim )
   {
      size_t i = 0;
      while( i < recs.size() )
      {
         Key pre( recs[i].k.begin(), recs[i].k.end() - 1 );
         c.check( ri < rows.size(), "row for ", keyStr( pre ), " missing" );
         auto &row = rows[ri++];
         c.check( row.size() == pre.size() + cols.size(), "row ", ri, " has ", row.size(), " fields, expected ", pre.size() + cols.size() );
         for( size_t j = 0; j < pre.size(); j++ ) c.check( row[j] == d.label( pre[j] ), "row ", ri, " label ", j + 1, " is ", q( row[j] ), " expected ", q( d.label( pre[j] ) ) );
         for( size_t j = 0; j < cols.size(); j++ )
         {
            std::string w = "row " + std::to_string( ri ) + " column " + q( d.label( cols[j] ) );
            if( i < recs.size() && std::equal( pre.begin(), pre.end(), recs[i].k.begin() ) && recs[i].k.back() == cols[j] )
            {
               if( isSet ) c.check( row[pre.size() + j] == "Y", w, ": element shown as ", q( row[pre.size() + j] ) );
               else
                  checkNum( c, d, o, row[pre.size() + j], recs[i].v[0], w );
               i++;
            }
            else
               c.check( row[pre.size() + j].empty(), w, ": shows ", q( row[pre.size() + j] ), " but there is no record" );
         }
      }
   }
   else
      for( auto &r: recs )
      {
         std::string w = "row " + std::to_string( ri + 1 );
         c.check( ri < rows.size(), w, " missing" );
         auto &row = rows[ri++];
         size_t want = y.dim + ( isSet ? ( stext ? 1 : 0 ) : multi && all ? 5 : 1 );
         c.check( row.size() == want, w, " has ", row.size(), " fields, expected ", want );
         for( int j = 0; j < y.dim; j++ ) c.check( row[j] == d.label( r.k[j] ), w, " label ", j + 1, " is ", q( row[j] ), " expected ", q( d.label( r.k[j] ) ) );
         if( isSet )
         {
            if( stext ) c.check( row[y.dim] == r.text, w, " text is ", q( row[y.dim] ), " expected ", q( r.text ) );
         }
         else
            for( int f = 0; f < ( multi && all ? 5 : 1 ); f++ ) checkNum( c, d, o, row[y.dim + f], r.v[f], w + " field " + std::to_string( f ) );
      }
   c.check( ri == rows.size(), rows.size() - ri, " rows too many" );
   bool bad = false;
   for( auto &r: recs ) bad |= stray( d, r );
   c.check( cdim ? bad || notes.empty() : bad == !notes.empty(), "note about labels without text: ", notes.size(), " expected ", bad );
   c.nontrivial = !recs.empty();
   if( cdim ) c.label( "column layout" );
}

// ------------------------------------------------------------ overview listings
VP_PROP( C20, overview, "an overview listing of a file with at least two symbols was parsed back", 3000, 90000 )
{
   TOpt to;
   TDoc d = genTool( s, to );
   int compr = s.flip();
   writeTool( c, d, c.path( "in.gdx" ), compr );
   int kind = s.range( 0, 6 );
   static const char *kn[] = { "Symbols", "DomainInfo", "SymbolsAsSet", "SymbolsAsSetDI", "SetText", "-V", "UelTable" };
   std::vector<std::string> a;
   if( kind == 5 ) a.push_back( s.flip() ? "-V" : "-Version" );
   else if( kind == 6 )
   {
      addOpt( s, a, "UelTable", "u" );
      addOpt( s, a, "Format", "csv" );
      addOpt( s, a, "Symb", "x" );
   }
   else
      a.push_back( spell( s, kn[kind] ) );
   c.desc = d.describe() + " " + kn[kind];
   c.label( kn[kind] );
   std::string t;
   if( kind == 5 )
   {
      Run r = runTool( c, "gdxdump", { inName( s ), a[0] } );
      c.check( r.code == 0, "exit code ", r.code );
      t = r.out;
   }
   else
      t = getOutput( c, s, a, inName( s ), 0 );
   Cur u( c, t );
   auto symTok = [&]( const std::string &l, size_t &p ) {
      while( p < l.size() && l[p] == ' ' ) p++;
      size_t b = p;
      while( p < l.size() && l[p] != ' ' ) p++;
      return l.substr( b, p - b );
   };
   c.nontrivial = d.syms.size() >= 2;
   if( kind < 5 ) u.skipLines();
   if( kind < 5 ) checkAcronyms( c, u, d );
   switch( kind )
   {
      case 0: {
         u.restOfLine();
         std::set<int> seen;
         for( size_t i = 0; i < d.syms.size(); i++ )
         {
            c.check( !u.end(), "line for symbol ", i + 1, " missing" );
            std::string l = u.restOfLine();
            size_t p = 0;
            std::string nr = symTok( l, p ), nm = symTok( l, p ), dm = symTok( l, p ), ty = symTok( l, p ), cnt = symTok( l, p );
            c.check( nr == std::to_string( i + 1 ), "line ", i + 1, " is numbered ", nr );
            int sy = d.find( nm );
            c.check( sy && seen.insert( sy ).second, "symbol ", q( nm ), " unknown or listed twice" );
            auto &y = d.syms[sy - 1];
            c.check( nm == y.name && dm == std::to_string( y.dim ) && ty == shortTxt[y.type], "symbol ", y.name, ": listed as ", q( l ) );
            c.check( cnt == std::to_string( y.recs.size() ) || ( y.type == GMS_DT_ALIAS && y.dim == 0 ), "symbol ", y.name, ": ", cnt, " records listed, expected ", y.recs.size() );
            c.check( l.substr( p, 2 ) == "  " && l.substr( p + 2 ) == y.expl, "symbol ", y.name, ": text listed as ", q( l.substr( p ) ), " expected ", q( y.expl ) );
         }
         break;
      }
      case 1: {
         u.restOfLine();
         std::set<int> seen;
         for( size_t i = 0; i < d.syms.size(); i++ )
         {
            c.check( !u.end(), "line for symbol ", i + 1, " missing" );
            std::string l = u.restOfLine();
            size_t p = 0;
            std::string nr = symTok( l, p ), ty = symTok( l, p ), di = symTok( l, p );
            c.check( p < l.size() && l[p] == ' ', "line ", q( l ) );
            std::string rest = l.substr( p + 1 );
            std::string nm = rest.substr( 0, rest.find( '(' ) );
            int sy = d.find( nm );
            c.check( sy && seen.insert( sy ).second, "symbol ", q( nm ), " unknown or listed twice" );
            auto &y = d.syms[sy - 1];
            c.check( nr == std::to_string( sy ) && ty == shortTxt[y.type], "symbol ", y.name, ": listed as ", q( l ) );
            if( y.type == GMS_DT_ALIAS ) continue;// domain information of aliases is not promised
            bool anyReg = false, anyRel = false;
            for( int x: y.domReg ) anyReg |= x != 0;
            for( auto &x: y.domX ) anyRel |= x != "*";
            std::string e = anyReg ? "Regular" : anyRel ? "Relaxed" : "None";
            // a declaration consisting of * only may count as any kind
            if( anyReg || anyRel )
               c.check( di == e, "symbol ", y.name, ": domain kind ", di, " expected ", e );
            std::string es = y.name;
            if( y.dim )
            {
               es += "(";
               for( int k = 0; k < y.dim; k++ ) es += std::string( k ? ", " : "" ) + ( !y.domReg.empty() && y.domReg[k] ? d.syms[y.domReg[k] - 1].name : !y.domX.empty() ? y.domX[k] : "*" );
               es += ")";
            }
            c.check( rest == es, "symbol ", y.name, ": domain listed as ", q( rest ), " expected ", q( es ) );
         }
         break;
      }
      case 2:
      case 3: {
         c.check( u.restOfLine().substr( 0, 7 ) == "alias (", "first line" );
         c.check( u.restOfLine().substr( 0, 4 ) == "set ", "second line" );
         for( size_t i = 0; i < d.syms.size(); i++ )
         {
            auto &y = d.syms[i];
            std::string w = "item " + std::to_string( i + 1 );
            std::string nm = u.quoted( w );
            u.need( ".", w );
            std::string dm = u.until( "." );
            u.need( ".", w );
            std::string ty = u.quoted( w );
            c.check( nm == y.name && dm == std::to_string( y.dim ) && ty == shortTxt[y.type], w, ": ", nm, ".", dm, ".", ty );
            if( kind == 3 )
            {
               u.need( ".", w );
               std::string dom = u.quoted( w ), e;
               if( y.type != GMS_DT_ALIAS )
               {
                  for( int k = 0; k < y.dim; k++ ) e += std::string( k ? ", " : "" ) + ( !y.domReg.empty() && y.domReg[k] ? d.syms[y.domReg[k] - 1].name : !y.domX.empty() ? y.domX[k] : "*" );
                  if( e.size() <= 63 ) c.check( dom == e, w, ": domain ", q( dom ), " expected ", q( e ) );
                  else
                     c.check( dom.size() <= 63, w, ": domain text longer than a label can be" );
               }
            }
            else if( !y.expl.empty() )
            {
               u.need( " ", w );
               std::string tx = u.quoted( w );
               c.check( tx == y.expl, w, ": text ", q( tx ), " expected ", q( y.expl ) );
            }
            u.need( i + 1 < d.syms.size() ? ",\n" : "\n", w );
         }
         u.need( "/;\n", "end of the items" );
         break;
      }
      case 4: {
         // texts in order of first use; number 0 is the empty text
         std::vector<std::string> tx { "" };
         int mx = 0;
         for( auto &y: d.syms )
            if( y.type == GMS_DT_SET )
               for( auto &r: y.recs )
                  if( !r.text.empty() )
                  {
                     auto it = std::find( tx.begin(), tx.end(), r.text );
                     if( it == tx.end() )
                     {
                        tx.push_back( r.text );
                        it = tx.end() - 1;
                     }
                     mx = std::max( mx, int( it - tx.begin() ) );
                  }
         std::string l1 = u.restOfLine(), l2 = u.restOfLine();
         c.check( l1 == "Count of set text strings in GDX: " + std::to_string( tx.size() ), "first line ", q( l1 ), " expected ", tx.size() );
         c.check( l2 == "max 0-based textIdx found in GDX: " + std::to_string( mx ), "second line ", q( l2 ), " expected ", mx );
         u.restOfLine();
         for( size_t i = 0; i < tx.size(); i++ )
         {
            std::string l = u.restOfLine();
            size_t p = 0;
            std::string nr = symTok( l, p );
            c.check( nr == std::to_string( i ), "line of text ", i, ": ", q( l ) );
            c.check( l.substr( p ) == "   \"" + tx[i] + "\"", "text ", i, " listed as ", q( l.substr( p ) ), " expected ", q( tx[i] ) );
         }
         break;
      }
      case 5: {
         std::map<std::string, std::string> kv;
         while( !u.end() )
         {
            std::string l = u.restOfLine();
            size_t p = l.find( ':' );
            c.check( p != std::string::npos && l.compare( 0, 3, "*  " ) == 0, "line ", q( l ) );
            std::string v = l.substr( p + 1 );
            while( !v.empty() && v[0] == ' ' ) v.erase( 0, 1 );
            kv[trimR( l.substr( 3, p - 3 ) )] = v;
         }
         c.check( kv["Symbols"] == std::to_string( d.syms.size() ), "symbols: ", kv["Symbols"] );
         c.check( kv["Unique Elements"] == std::to_string( d.uels.size() ), "labels: ", kv["Unique Elements"] );
         c.check( kv["File format"] == "7", "format: ", kv["File format"] );
         c.check( kv["Compression"] == std::to_string( compr ), "compression: ", kv["Compression"] );
         c.check( kv["Producer"] == "vp", "producer: ", kv["Producer"] );
         break;
      }
      default: {
         for( size_t i = 0; i < d.uels.size(); i++ )
         {
            u.blanks();
            std::string l = u.quoted( "label " + std::to_string( i + 1 ) );
            c.check( l == d.uels[i], "label ", i + 1, " printed as ", q( l ), " expected ", q( d.uels[i] ) );
            u.need( "\n", "label" );
         }
      }
   }
   c.check( u.end(), "left over in the output: ", u.here() );
}

// ------------------------------------------------------------ basis format
VP_PROP( C20, basis, "a file with at least two variable or equation records was printed as level and marginal assignments and parsed back", 2000, 60000 )
{
   TOpt to;
   to.comments = false;
   TDoc d = genTool( s, to );
   writeTool( c, d, c.path( "in.gdx" ), s.flip() );
   std::vector<std::string> a;
   DOpt o = genOpt( s, a, false );
   addOpt( s, a, "Format", spell( s, "gamsbas" ) );
   if( s.chance( 1, 3 ) )
   {
      o.filter = s.flip();
      addOpt( s, a, "FilterDef", o.filter ? "Y" : "N" );
   }
   int one = 0;
   if( !d.syms.empty() && s.chance( 1, 4 ) )
   {
      one = s.range( 1, (int) d.syms.size() );
      addOpt( s, a, "Symb", d.syms[one - 1].name );
   }
   c.desc = d.describe();
   for( auto &x: a ) c.desc += " " + x;
   std::string t = getOutput( c, s, a, inName( s ), 0 );
   Cur u( c, t );
   u.skipLines();
   checkAcronyms( c, u, d );
   auto ws = [&] {
      while( true )
      {
         if( !u.end() && u.bol() && ( u.t[u.p] == '$' || u.t[u.p] == '*' ) ) u.skipLines();
         if( !u.end() && ( u.t[u.p] == ' ' || u.t[u.p] == '\n' ) ) u.p++;
         else
            break;
      }
   };
   size_t nrec = 0;
   for( size_t i = 0; i < d.syms.size(); i++ )
   {
      auto &y = d.syms[i];
      if( one && one != (int) i + 1 ) continue;
      if( y.type != GMS_DT_VAR && y.type != GMS_DT_EQU ) continue;
      V5 def = toolDefault( y.type, y.user );
      for( auto &r: y.recs )
      {
         nrec++;
         auto ks = labels( d, r );
         for( int f = y.type == GMS_DT_EQU ? 1 : 0; f < 2; f++ )
         {
            if( o.filter && r.v[f] == def[f] ) continue;
            std::string w = y.name + "." + fieldTxt[f] + keyTxt( ks );
            ws();
            while( u.lit( ";" ) ) ws();
            c.check( u.word() == y.name, w, ": expected the symbol at ", u.here() );
            u.need( ".", w );
            c.check( u.word() == fieldTxt[f], w, ": field" );
            ws();
            if( y.dim )
            {
               u.need( "(", w );
               for( int k = 0; k < y.dim; k++ )
               {
                  if( k ) u.need( std::string( 1, o.delim ), w );
                  std::string l = u.quoted( w );
                  c.check( l == ks[k], w, ": label ", k + 1, " printed as ", q( l ) );
               }
               u.need( ")", w );
            }
            ws();
            u.need( "=", w );
            ws();
            checkNum( c, d, o, u.until( " \n" ), r.v[f], w );
            ws();
            u.need( ";", w );
         }
      }
   }
   while( true )
   {
      ws();
      if( !u.lit( ";" ) ) break;
   }
   u.skipLines();
   c.check( u.end(), "left over in the output: ", u.here() );
   c.nontrivial = nrec >= 2;
}

// ------------------------------------------------------------ refusals
VP_PROP( C20, refused, "a call the tool must refuse: unknown symbol, missing file, bad or repeated option, no GDX file", 1000, 30000 )
{
   TOpt to;
   to.maxSyms = 3;
   TDoc d = genTool( s, to );
   writeTool( c, d, c.path( "in.gdx" ), s.flip() );
   Run r {};
   int k = s.range( 0, 9 );
   c.desc = "refusal " + std::to_string( k );
   switch( k )
   {
      case 0:
         r = runTool( c, "gdxdump", { "in.gdx", "Symb=" + std::string( d.find( "nosuch" ) ? "nosuch2" : "nosuch" ) } );
         c.check( r.out.find( "Symbol not found" ) != std::string::npos, "unknown symbol not reported: ", q( r.out.substr( 0, 200 ) ) );
         break;
      case 1: r = runTool( c, "gdxdump", { "absent.gdx" } ); break;
      case 2: r = runTool( c, "gdxdump", { "in.gdx", "Frmat=csv" } ); break;
      case 3: r = runTool( c, "gdxdump", { "in.gdx", "Format=csv" } ); break;
      case 4: r = runTool( c, "gdxdump", { "in.gdx", "Delim=comma", "DecimalSep=comma" } ); break;
      case 5: r = runTool( c, "gdxdump", { "in.gdx", "Delim=comma", "Delim=tab" } ); break;
      case 6:
         spitFile( c.path( "junk.gdx" ), std::string( s.range( 0, 200 ), char( s.range( 0, 255 ) ) ) );
         r = runTool( c, "gdxdump", { "junk.gdx" } );
         break;
      case 7: r = runTool( c, "gdxdump", { "in.gdx", "Symb=" + std::string( s.range( 60, 700 ), 'n' ) } ); break;
      case 8: r = runTool( c, "gdxdump", { "in.gdx", std::string( s.range( 60, 700 ), 'o' ) } ); break;
      default: r = runTool( c, "gdxdump", {} ); break;
   }
   c.check( r.code != 0, "call not refused" );
   c.nontrivial = true;
}
