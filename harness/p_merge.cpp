// C22: the merge tool keeps every record of every input.
#include "tooldoc.hpp"
#include <cmath>
#include <ctime>
#include <fcntl.h>
#include <sys/stat.h>

using namespace vp;

namespace
{
struct File {
   std::string path, id;
   TDoc d;
   bool junk {};
};
std::string acrName( const std::vector<TAcr> &acrs, double v )
{
   if( v < GMS_SV_ACR ) return {};
   int idx = (int) std::lround( v / GMS_SV_ACR );
   for( auto &a: acrs )
      if( a.idx == idx ) return "=" + upper( a.name );
   return "?" + std::to_string( idx );
}
using MKey = std::vector<std::string>;
struct MSym {
   std::string name, expl;
   int dim {}, type {}, user {};
   std::map<MKey, SRec> recs;
   std::map<MKey, std::string> from;
   std::map<MKey, const TDoc *> doc;
};

// documents that share symbols
std::vector<TDoc> genDocs( Src &s, int n, bool clash, bool acr )
{
   std::vector<TDoc> ds;
   TOpt to;
   to.comments = false;
   to.domains = false;
   to.acronyms = acr;
   ds.push_back( genTool( s, to ) );
   for( int i = 1; i < n; i++ )
   {
      TDoc d = genTool( s, to );
      auto &f = ds[s.range( 0, i - 1 )];
      std::set<std::string> names;
      for( auto &y: d.syms ) names.insert( upper( y.name ) );
      std::set<int> referred;
      for( auto &y: d.syms )
         if( y.type == GMS_DT_ALIAS ) referred.insert( y.aliasOf );
      for( size_t j = 0; j < d.syms.size() && !f.syms.empty(); j++ )
      {
         auto &y = d.syms[j];
         if( !s.chance( 3, 4 ) ) continue;
         auto &o = s.pick( f.syms );
         if( !names.insert( upper( o.name ) ).second ) continue;
         bool fixed = referred.count( (int) j + 1 ) || y.type == GMS_DT_ALIAS;
         bool differs = y.dim != o.dim || ( y.type == GMS_DT_ALIAS ? (int) GMS_DT_SET : y.type ) != ( o.type == GMS_DT_ALIAS ? (int) GMS_DT_SET : o.type );
         if( fixed && differs && !clash )
         {
            names.erase( upper( o.name ) );
            continue;
         }
         y.name = s.chance( 1, 3 ) ? recase( s, o.name ) : o.name;
         if( fixed ) continue;
         y.domReg.clear();
         y.domX.clear();
         y.type = o.type == GMS_DT_ALIAS ? (int) GMS_DT_SET : o.type;
         y.dim = o.dim;
         y.user = y.type == GMS_DT_SET ? 0 : o.user;
         if( s.flip() ) y.expl = o.type == GMS_DT_ALIAS ? "" : o.expl;
         if( clash && s.chance( 1, 6 ) )
            switch( s.range( 0, 2 ) )
            {
               case 0: y.dim = y.dim ? y.dim - 1 : 1; break;
               case 1:
                  y.type = ( y.type + 1 ) % 4;
                  y.user = y.type == GMS_DT_EQU ? (int) GMS_EQU_USERINFO_BASE : 0;
                  break;
               default:
                  if( y.type == GMS_DT_VAR ) y.user = ( y.user + 1 ) % GMS_VARTYPE_MAX;
                  else if( y.type == GMS_DT_EQU )
                     y.user = GMS_EQU_USERINFO_BASE + ( y.user - GMS_EQU_USERINFO_BASE + 1 ) % GMS_EQUTYPE_MAX;
            }
         y.recs = genToolRecs( s, d, y, to );
      }
      for( auto &y: d.syms )
         if( y.type == GMS_DT_ALIAS ) y.expl = "Aliased with " + ( y.aliasOf ? d.syms[y.aliasOf - 1].name : std::string( "*" ) );
      ds.push_back( d );
   }
   // symbols with the name of the set the tool adds
   if( s.chance( 1, 5 ) )
      for( auto &d: ds )
         for( auto &y: d.syms )
            if( s.chance( 1, 3 ) )
            {
               std::string n = std::string( s.flip() ? "Merged_set_" : "MERGED_SET_" ) + std::to_string( s.range( 1, 3 ) );
               bool dup = false;
               for( auto &x: d.syms ) dup |= sameCI( x.name, n );
               if( dup ) continue;
               y.name = n;
               for( auto &x: d.syms )
                  if( x.type == GMS_DT_ALIAS && x.aliasOf && &d.syms[x.aliasOf - 1] == &y ) x.expl = "Aliased with " + n;
            }
   // the same acronyms in other spelling
   for( size_t i = 1; i < ds.size(); i++ )
      for( auto &a: ds[i].acrs )
         if( s.chance( 1, 3 ) ) a.name = recase( s, a.name );
   // the same texts in other spelling
   for( auto &d: ds )
      for( auto &y: d.syms )
         if( y.type == GMS_DT_SET && s.chance( 1, 3 ) )
            for( auto &r: y.recs )
               if( s.flip() ) r.text = s.pick( std::vector<std::string> { "some text", "Some Text", "SOME TEXT", "x", "X" } );
   return ds;
}

std::string genName( Src &s, int i )
{
   std::string b = "in" + std::to_string( i );
   switch( s.weighted( { 8, 1, 1, 1, 1, 1 } ) )
   {
      case 0: return b + ".gdx";
      case 1: return b + " with blanks.gdx";
      case 2: return b + ".v2.gdx";
      case 3: return b + std::string( s.range( 55, 90 ), 'n' ) + ".gdx";
      case 4: return b + ".dat";
      default: return b;
   }
}
std::string baseId( const std::string &p )
{
   std::string b = p.substr( p.rfind( '/' ) == std::string::npos ? 0 : p.rfind( '/' ) + 1 );
   auto k = b.rfind( '.' );
   return k == std::string::npos ? b : b.substr( 0, k );
}

struct Setup {
   std::vector<File> files;
   std::vector<std::string> args;
   bool haveInc {}, haveExc {};
   std::set<std::string> inc, exc;
   std::string out;
   bool viaPattern {};
};

void addLists( Src &s, Setup &u )
{
   int k = s.weighted( { 4, 1, 1 } );
   if( !k ) return;
   auto &set = k == 1 ? u.inc : u.exc;
   ( k == 1 ? u.haveInc : u.haveExc ) = true;
   for( int r = s.range( 1, 2 ); r > 0; r-- )
   {
      std::string v;
      for( int i = s.range( 1, 4 ); i > 0; i-- )
      {
         std::string n = "absent";
         auto &d = s.pick( u.files ).d;
         if( !d.syms.empty() && s.chance( 5, 6 ) ) n = s.pick( d.syms ).name;
         if( s.chance( 1, 3 ) ) n = recase( s, n );
         set.insert( upper( n ) );
         if( !v.empty() ) v += s.pick( std::vector<std::string> { ",", " ", ", " } );
         v += n;
      }
      u.args.push_back( std::string( k == 1 ? ( s.flip() ? "id" : "ID" ) : ( s.flip() ? "exclude" : "EXCLUDE" ) ) + "=" + v );
   }
}

// what the merged file must hold
std::vector<MSym> expect( const Setup &u, const std::vector<const File *> &order, std::set<std::string> &refused, std::set<std::string> &texts )
{
   std::vector<MSym> ms;
   for( auto *f: order )
   {
      if( f->junk ) continue;
      for( size_t i = 0; i < f->d.syms.size(); i++ )
      {
         auto &y = f->d.syms[i];
         if( y.dim >= MAXDIM )
         {
            refused.insert( upper( y.name ) );
            continue;
         }
         if( ( u.haveInc && !u.inc.count( upper( y.name ) ) ) || ( u.haveExc && u.exc.count( upper( y.name ) ) ) ) continue;
         MSym *m = nullptr;
         for( auto &x: ms )
            if( sameCI( x.name, y.name ) ) m = &x;
         int type = y.type == GMS_DT_ALIAS ? (int) GMS_DT_SET : y.type;
         if( !m )
         {
            ms.emplace_back();
            m = &ms.back();
            m->name = y.name;
            m->dim = y.dim + 1;
            m->type = type;
            m->user = y.type == GMS_DT_ALIAS ? 0 : y.user;
         }
         bool ve = type == GMS_DT_VAR || type == GMS_DT_EQU;
         if( m->dim != y.dim + 1 || m->type != type || ( ve && m->user != y.user ) )
         {
            refused.insert( upper( y.name ) );
            continue;
         }
         if( m->expl.empty() ) m->expl = y.expl;
         else if( !y.expl.empty() && y.expl != m->expl )
            texts.insert( upper( y.name ) );
         int r = f->d.resolve( (int) i + 1 );
         std::vector<TRec> uni;
         if( !r )
            for( size_t k = 1; k <= f->d.uels.size(); k++ )
            {
               TRec t;
               t.k = { (int) k };
               uni.push_back( t );
            }
         for( auto &t: r ? f->d.syms[r - 1].recs : uni )
         {
            SRec x;
            MKey k { upper( f->id ) };
            for( int n: t.k ) k.push_back( n >= 1 && n <= (int) f->d.uels.size() ? upper( f->d.uels[n - 1] ) : "?L__" + std::to_string( n ) );
            x.v = t.v;
            x.text = t.text;
            m->recs[k] = x;
            m->doc[k] = &f->d;
         }
      }
   }
   return ms;
}

std::string show( const MKey &k )
{
   std::string r;
   for( auto &x: k ) r += ( r.empty() ? "" : "." ) + q( x );
   return "(" + r + ")";
}

void runMerge( Ctx &c, Src &s, Setup &u, long big )
{
   for( auto &f: u.files )
   {
      if( f.junk ) spitFile( c.path( f.path ), "no gdx file" + std::string( s.range( 0, 30 ), 'x' ) );
      else
         writeTool( c, f.d, c.path( f.path ), s.flip() );
   }
   // the time of the file is part of what is kept about it
   setenv( "TZ", "UTC", 1 );
   std::map<std::string, std::string> stamp;
   for( auto &f: u.files )
   {
      time_t t = 86400L * 3653 + (time_t) s.range( 0, 1800000000 );// file times are 32 bit numbers in the library
      timespec ts[2] { { t, 0 }, { t, 0 } };
      c.check( utimensat( AT_FDCWD, c.path( f.path ).c_str(), ts, 0 ) == 0, "harness: time of ", f.path );
      tm x;
      gmtime_r( &t, &x );
      char b[64];
      strftime( b, sizeof b, "%Y/%m/%d %H:%M:%S", &x );
      stamp[f.path] = b;
   }
   std::vector<std::string> a;
   bool twice = false;
   if( u.viaPattern )
   {
      a.push_back( "in*" );
      if( ( twice = s.chance( 1, 3 ) ) ) a.push_back( u.files[0].path );// listed twice
   }
   else
      for( auto &f: u.files ) a.push_back( f.path );
   if( big >= 0 ) u.args.push_back( ( s.flip() ? "big=" : "BIG=" ) + std::to_string( big ) );
   u.out = "merged.gdx";
   switch( s.range( 0, 3 ) )
   {
      case 1:
         u.out = "res.gdx";
         u.args.push_back( s.flip() ? "output=res" : "O=res.gdx" );
         break;
      case 2:
         u.out = "sub/res.x";
         u.args.push_back( "Output=sub/res.x" );
         break;
      default: break;
   }
   if( u.viaPattern && s.chance( 1, 4 ) )
   {// the output is one of the files the pattern finds
      u.args.erase( std::remove_if( u.args.begin(), u.args.end(), []( const std::string &x ) { return upper( x ).find( "O" ) == 0; } ), u.args.end() );
      u.out = "inz.gdx";
      u.args.push_back( "output=inz.gdx" );
      c.label( "output matches the pattern", 1 );
   }
   if( s.chance( 1, 4 ) ) spitFile( c.path( u.out ), "old content" );
   else if( u.out != "inz.gdx" && s.chance( 1, 5 ) )
      u.args.push_back( s.flip() ? "strict=true" : "STRICT=True" );// nothing to complain about
   // options anywhere between the files
   for( auto &x: u.args ) a.insert( a.begin() + s.range( 1, (int) a.size() ), x );
   for( auto &x: a ) c.desc += " " + q( x );
   std::string listing;
   if( s.chance( 1, 6 ) )
   {
      // the same through a parameter file
      std::string t;
      bool ok = true;
      for( auto &x: a )
      {
         ok &= x.find_first_of( " @" ) == std::string::npos;
         t += x + "\n";
      }
      if( ok )
      {
         spitFile( c.path( "pars.txt" ), "* comment\n" + t );
         a = { s.flip() ? "@pars.txt" : "@pars" };
      }
   }
   Run r = runTool( c, "gdxmerge", a );
   c.check( r.code == 0, "merge ended with ", r.code, "\n", r.out, r.err );
   // order in which the files were taken
   std::vector<const File *> order;
   std::vector<std::string> read;
   size_t p = 0;
   while( ( p = r.out.find( "Reading file: ", p ) ) != std::string::npos )
   {
      p += 14;
      std::string n = r.out.substr( p, r.out.find( '\n', p ) - p );
      bool dup = false;
      for( auto &x: read ) dup |= x == n;
      if( dup ) continue;
      read.push_back( n );
      for( auto &f: u.files )
         if( f.path == n ) order.push_back( &f );
   }
   c.check( order.size() == u.files.size() && read.size() == u.files.size(), "files read: ", read.size(), " given: ", u.files.size(), "\n", r.out );
   SDoc D = readTool( c, c.path( u.out ) );
   c.check( !D.syms.empty(), "the merged file is empty" );
   // the set of the merged files tells under which name a file went
   const SSym *fs = &D.syms.back();
   c.check( fs->dim == 1 && fs->type == GMS_DT_SET, "set of the merged files is the last symbol, found ", fs->name );
   c.check( fs->recs.size() == order.size(), fs->name, " has ", fs->recs.size(), " elements, expected ", order.size() );
   std::set<std::string> ids;
   for( size_t i = 0; i < order.size(); i++ )
   {
      auto f = const_cast<File *>( order[i] );
      const SRec *found = nullptr;
      std::string tail = "  " + f->path;
      for( auto &x: fs->recs )
         if( x.text.size() >= tail.size() && x.text.substr( x.text.size() - tail.size() ) == tail ) found = &x;
      c.check( found, "no element of ", fs->name, " stands for ", f->path );
      f->id = found->k[0];
      std::string b = baseId( f->path );
      if( goodUel( b ) && !ids.count( upper( b ) ) ) c.check( sameCI( f->id, b ), f->path, " goes as ", q( f->id ), " expected ", q( b ) );
      else
         c.check( r.out.find( "Replaced with: " + f->id + "\n" ) != std::string::npos, f->path, " goes as ", q( f->id ), " without notice\n", r.out );
      c.check( ids.insert( upper( f->id ) ).second, "two files go as ", q( f->id ) );
      c.check( found->text == stamp[f->path] + tail, "text for ", f->path, " is ", q( found->text ), " expected ", q( stamp[f->path] + tail ) );
   }
   std::set<std::string> acrNames;
   for( auto &a: D.acrs ) c.check( acrNames.insert( upper( a.name ) ).second, "two acronyms of the merged file are called ", q( a.name ) );
   std::set<std::string> refused, texts;
   auto ms = expect( u, order, refused, texts );
   size_t nrec = 0;
   for( auto &m: ms ) nrec += m.recs.size();
   c.nontrivial = u.files.size() >= 2 && nrec >= 2;
   size_t good = 0;
   for( auto *f: order ) good += !f->junk;
   c.check( r.out.find( "Merge complete, " + std::to_string( good ) + " input files merged" ) != std::string::npos, good, " files merged, the report says otherwise: ", r.out );
   for( auto &n: refused )
      c.check( upper( r.err + r.out ).find( ": " + n + "\n" ) != std::string::npos, "symbol ", n, " could not be merged but this was not reported\n", r.out, r.err );
   for( auto &n: texts )
      c.check( upper( r.err + r.out ).find( "EXPLANATORY TEXT IS DIFFERENT: " + n + "\n" ) != std::string::npos, "the texts of symbol ", n, " differ but this was not reported\n", r.out, r.err );
   size_t ne = r.out.find( "Number of errors reported = " );
   if( refused.empty() && texts.empty() ) c.check( ne == std::string::npos, "errors reported, there is nothing to report\n", r.out, r.err );
   else
      c.check( ne != std::string::npos && atoi( r.out.c_str() + ne + 28 ) >= (int) std::max( refused.size(), texts.size() ), "symbols with problems: ", refused.size(), " refused, ", texts.size(), " with other texts\n", r.out, r.err );
   c.check( D.syms.size() == ms.size() + 1, "merged file has ", D.syms.size(), " symbols, expected ", ms.size() + 1, "\n", r.out, r.err );
   std::set<std::string> expNames;
   for( auto &m: ms )
   {
      expNames.insert( upper( m.name ) );
      auto y = D.find( m.name );
      c.check( y, "symbol ", m.name, " missing in the merged file" );
      c.check( y->dim == m.dim && y->type == m.type, m.name, " merged as dimension ", y->dim, " type ", y->type, " expected ", m.dim, " ", m.type );
      c.check( y->user == m.user, m.name, " merged as subtype ", y->user, " expected ", m.user );
      c.check( y->expl == m.expl, m.name, ": text ", q( y->expl ), " expected ", q( m.expl ) );
      std::map<MKey, const SRec *> got;
      for( auto &x: y->recs ) c.check( got.emplace( upKeys( x.k ), &x ).second, m.name, ": record twice ", show( x.k ) );
      for( auto &[k, x]: m.recs )
      {
         auto it = got.find( k );
         c.check( it != got.end(), m.name, ": record ", show( k ), " missing in the merged file\n", r.out, r.err );
         if( m.type == GMS_DT_SET ) c.check( it->second->text == x.text, m.name, show( k ), ": text ", q( it->second->text ), " expected ", q( x.text ) );
         else
            for( int f = 0; f < ( m.type == GMS_DT_PAR ? 1 : 5 ); f++ )
            {
               double v = it->second->v[f], w = x.v[f];
               std::string an = acrName( m.doc[k]->acrs, w );
               if( !an.empty() ) c.check( acrName( D.acrs, v ) == an, m.name, show( k ), " field ", f, ": acronym ", an, " became ", acrName( D.acrs, v ), " ", hexd( v ) );
               else
                  c.check( bitsOf( v ) == bitsOf( w ), m.name, show( k ), " field ", f, ": ", hexd( v ), " expected ", hexd( w ) );
            }
      }
      for( auto &[k, x]: got ) c.check( m.recs.count( k ), m.name, ": record ", show( k ), " is in none of the inputs" );
   }
   c.check( !expNames.count( upper( fs->name ) ), "the set of the merged files has the name of a symbol" );
   int sn = 1;
   while( expNames.count( "MERGED_SET_" + std::to_string( sn ) ) ) sn++;
   c.check( fs->name == "Merged_set_" + std::to_string( sn ), "the set of the merged files is called ", fs->name, ", Merged_set_", sn, " is free" );
   // labels: those of the merged content, the file names, nothing else
   std::set<std::string> labels;
   for( auto &m: ms )
      for( auto &[k, x]: m.recs )
         for( auto &l: k ) labels.insert( l );
   for( auto *f: order ) labels.insert( upper( f->id ) );
   for( auto &l: D.uels ) c.check( labels.count( upper( l ) ), "label ", q( l ), " of the merged file belongs to nothing" );
   // the inputs are as they were
   for( auto *f: order )
   {
      if( f->junk ) continue;
      SDoc I = readTool( c, c.path( f->path ) );
      c.check( I.syms.size() == f->d.syms.size(), "input ", f->path, " changed" );
   }
}

Setup genSetup( Src &s, bool clash, bool acr, Ctx &c )
{
   Setup u;
   int n = s.range( 1, 4 );
   auto ds = genDocs( s, n, clash, acr );
   mkdir( c.path( "sub" ).c_str(), 0777 );
   mkdir( c.path( "sub2" ).c_str(), 0777 );
   u.viaPattern = s.chance( 1, 5 );
   bool sameNames = !u.viaPattern && s.chance( 1, 5 );
   std::set<std::string> used;
   for( int i = 0; i < n; i++ )
   {
      File f;
      f.d = ds[i];
      f.path = genName( s, i );
      if( !u.viaPattern && s.chance( 1, 4 ) ) f.path = "sub/" + f.path;
      if( sameNames )
      {
         f.path = std::string( s.pick( std::vector<std::string> { "", "sub/", "sub2/" } ) ) + s.pick( std::vector<std::string> { "same.gdx", "Same.gdx", "other.gdx", "File_2.gdx", "file_3.gdx", "File_4.gdx" } );
         while( !used.insert( f.path ).second ) f.path = "sub/x" + std::to_string( used.size() ) + "_" + std::to_string( i ) + ".gdx";
      }
      f.junk = i > 0 && s.chance( 1, 12 );
      // a label that is the name of a file
      if( !f.d.uels.empty() && s.chance( 1, 6 ) )
      {
         bool dup = false;
         for( auto &x: f.d.uels ) dup |= sameCI( x, "in1" );
         if( !dup ) f.d.uels[s.range( 0, (int) f.d.uels.size() - 1 )] = "IN1";
      }
      c.desc += f.path + ": " + f.d.describe();
      u.files.push_back( f );
   }
   addLists( s, u );
   return u;
}
}// namespace

VP_PROP( C22, merge, "at least two files with two records together were merged and the result compared", 4000, 120000 )
{
   auto u = genSetup( s, s.chance( 1, 3 ), s.flip(), c );
   runMerge( c, s, u, -1 );
}

VP_PROP( C22, big, "at least two files with two records together were merged, large symbols one at a time, and the result compared", 3000, 80000 )
{
   auto u = genSetup( s, s.chance( 1, 3 ), s.flip(), c );
   std::vector<long> at { 0, 1, 2, 5, 10, 30, 100, 1000 };
   // limits at the size of a symbol, in numbers stored
   std::map<std::string, long> size;
   for( auto &f: u.files )
      if( !f.junk )
         for( auto &y: f.d.syms )
            if( y.type != GMS_DT_ALIAS ) size[upper( y.name )] += (long) y.recs.size() * ( y.dim + 1 ) * ( y.type == GMS_DT_VAR || y.type == GMS_DT_EQU ? 4 : 1 );
   if( !size.empty() && s.chance( 2, 3 ) )
   {
      auto it = size.begin();
      std::advance( it, s.range( 0, (int) size.size() - 1 ) );
      at = { it->second, it->second, it->second + 1, std::max( 0L, it->second - 1 ) };
   }
   runMerge( c, s, u, s.pick( at ) );
}

VP_PROP( C22, refused, "a call the tool must refuse: no input in strict mode, contradicting lists, existing output in strict mode", 600, 15000 )
{
   TOpt to;
   to.maxSyms = 3;
   TDoc d = genTool( s, to );
   writeTool( c, d, c.path( "a.gdx" ), s.flip() );
   Run r {};
   int k = s.range( 0, 6 );
   c.desc = "refusal " + std::to_string( k );
   switch( k )
   {
      case 0: r = runTool( c, "gdxmerge", { "absent*.gdx", "strict=true" } ); break;
      case 1: r = runTool( c, "gdxmerge", { "a.gdx", "id=x", "exclude=y" } ); break;
      case 2:
         spitFile( c.path( "o.gdx" ), "mine" );
         r = runTool( c, "gdxmerge", { "a.gdx", "output=o", "strict=true" } );
         c.check( slurpFile( c.path( "o.gdx" ) ) == "mine", "existing output overwritten in strict mode" );
         break;
      case 3: r = runTool( c, "gdxmerge", { "a.gdx", "output=o", "output=p" } ); break;
      case 4: r = runTool( c, "gdxmerge", { "a.gdx", "output=nodir/o.gdx" } ); break;
      case 5: r = runTool( c, "gdxmerge", { "a*", "output=ab.gdx", "strict=true" } ); break;
      default: r = runTool( c, "gdxmerge", { "a.gdx", "@absent" } ); break;
   }
   c.check( r.code != 0, "call not refused\n", r.out, r.err );
   c.nontrivial = true;
}
