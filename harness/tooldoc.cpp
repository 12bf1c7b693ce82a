#include "tooldoc.hpp"
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern char **environ;

namespace vp
{
double acrVal( int idx ) { return GMS_SV_ACR * idx; }

std::string TDoc::describe() const
{
   std::string r = std::to_string( uels.size() ) + " labels; ";
   for( auto &y: syms ) r += y.name.substr( 0, 10 ) + ":" + "spvea"[y.type] + std::to_string( y.dim ) + "x" + std::to_string( y.recs.size() ) + " ";
   return r;
}

V5 toolDefault( int type, int user )
{
   V5 r {};
   if( type == GMS_DT_VAR )
   {
      int u = user >= 0 && user < GMS_VARTYPE_MAX ? user : GMS_VARTYPE_FREE;
      for( int i = 0; i < 5; i++ ) r[i] = gmsDefRecVar[u][i];
   }
   else if( type == GMS_DT_EQU )
   {
      int u = user - GMS_EQU_USERINFO_BASE;
      if( u < 0 || u >= GMS_EQUTYPE_MAX ) u = GMS_EQUTYPE_E;
      for( int i = 0; i < 5; i++ ) r[i] = gmsDefRecEqu[u][i];
   }
   return r;
}

double genToolVal( Src &s, const TDoc &d, int type, int user, int field )
{
   switch( s.weighted( { 8, 5, 3, 3, 4, 2 } ) )
   {
      case 0: return s.range( 1, 20 );
      case 1: return toolDefault( type, user )[field];
      case 2: return s.range( -1000000, 1000000 ) / 1000.0 + 0.0;
      case 3: {
         const double sv[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
         return sv[s.range( 0, 4 )];
      }
      case 4: return canonical( genDouble( s ) );
      default:
         if( d.acrs.empty() ) return 0.0;
         return acrVal( s.pick( d.acrs ).idx );
   }
}

std::vector<TRec> genToolRecs( Src &s, const TDoc &d, const TSym &y, const TOpt &o )
{
   int nu = (int) d.uels.size();
   std::vector<TRec> res;
   auto fill = [&]( TRec &r ) {
      if( y.type == GMS_DT_SET )
      {
         if( s.flip() ) r.text = goodText( s.chance( 1, 8 ) ? "a" + std::string( 1, ",;/$=*.'\"("[s.range( 0, 9 )] ) + ( s.flip() ? "." : "" ) : genText( s, 60 ) );
      }
      else
         for( int f = 0; f < ( y.type == GMS_DT_PAR ? 1 : 5 ); f++ ) r.v[f] = genToolVal( s, d, y.type, y.user, f );
   };
   if( y.dim == 0 )
   {
      // a symbol without indices always has one record: the default one when none was written
      TRec r;
      if( s.chance( 3, 4 ) ) fill( r );
      else
         r.v = toolDefault( y.type, y.user );
      res.push_back( r );
      return res;
   }
   std::vector<std::vector<int>> cand( y.dim );
   bool stray = o.unregistered && s.chance( 1, 8 );
   int width = s.chance( 1, 4 ) ? nu : std::min( nu, s.range( 1, 4 ) );
   int base = nu > width ? s.range( 0, nu - width ) : 0;
   for( int i = 0; i < y.dim; i++ )
   {
      int ds = i < (int) y.domReg.size() ? d.resolve( y.domReg[i] ) : 0;
      if( ds )
         for( auto &r: d.syms[ds - 1].recs ) cand[i].push_back( r.k[0] );
      else
      {
         for( int k = 0; k < width; k++ ) cand[i].push_back( base + k + 1 );
         if( stray )
            for( int k = 0; k < 2; k++ ) cand[i].push_back( nu + s.range( 1, 30 ) );
      }
      if( cand[i].empty() ) return res;
   }
   std::set<Key> keys;
   int n = y.user == 1 && y.type == GMS_DT_SET ? s.range( 0, 1 ) : s.size( 60 );
   if( n > 1 && nu > 200 && y.dim <= 3 && s.flip() )
   {// many labels in the last position
      n = s.range( 200, 900 );
      if( !( (int) y.domReg.size() == y.dim && d.resolve( y.domReg.back() ) ) )
      {
         cand.back().clear();
         for( int k = 1; k <= nu; k++ ) cand.back().push_back( k );
      }
   }
   for( int i = 0; i < n; i++ )
   {
      Key k;
      for( int j = 0; j < y.dim; j++ ) k.push_back( s.pick( cand[j] ) );
      keys.insert( k );
   }
   for( auto &k: keys )
   {
      TRec r;
      r.k = k;
      fill( r );
      res.push_back( std::move( r ) );
   }
   return res;
}

TDoc genTool( Src &s, const TOpt &o )
{
   TDoc d;
   std::set<std::string> seen;
   int nu = s.weighted( { 6, 2 } ) ? s.range( 0, 40 ) : s.range( 0, 8 );
   for( int i = 0; i < nu; i++ )
   {
      std::string u = genUel( s );
      if( u.empty() && !o.emptyLabel ) u = "e" + std::to_string( i );
      if( u.substr( 0, 3 ) == "L__" ) u = "x" + u.substr( 3 );
      if( seen.insert( upper( u ) ).second ) d.uels.push_back( u );
   }
   if( o.bulk && s.chance( 1, 40 ) )
      for( int i = s.range( 250, 700 ); i > 0; i-- )
      {
         std::string u = "Bulk" + std::to_string( i );
         if( seen.insert( upper( u ) ).second ) d.uels.push_back( u );
      }
   std::set<std::string> names;
   if( o.acronyms && s.chance( 1, 3 ) )
      for( int i = s.range( 1, 4 ); i > 0; i-- )
      {
         TAcr a;
         a.name = "acr" + std::to_string( i );
         if( s.flip() ) a.text = goodText( genText( s ) );
         a.idx = i + 3 * s.range( 0, 3 ) * 10;
         d.acrs.push_back( a );
         names.insert( upper( a.name ) );
      }
   std::map<std::string, std::string> domSpelling;// the first spelling of a domain name counts
   int ns = s.range( 0, o.maxSyms );
   std::vector<int> doms { 0 }, sets;
   for( int i = 0; i < ns; i++ )
   {
      TSym y;
      y.name = o.plainNames ? "s" + std::to_string( s.range( 1, 12 ) ) : genIdent( s );
      while( !names.insert( upper( y.name ) ).second ) y.name = "S" + std::to_string( names.size() ) + "_" + std::to_string( i ) + y.name.substr( 0, 8 );
      if( o.aliases && s.chance( 1, 7 ) )
      {
         y.type = GMS_DT_ALIAS;
         y.aliasOf = sets.empty() || s.chance( 1, 4 ) ? 0 : s.pick( sets );
         y.dim = y.aliasOf ? d.syms[y.aliasOf - 1].dim : 1;
         y.expl = "Aliased with " + ( y.aliasOf ? d.syms[y.aliasOf - 1].name : std::string( "*" ) );
         d.syms.push_back( y );
         sets.push_back( (int) d.syms.size() );
         if( y.dim == 1 && d.resolve( y.aliasOf ) ) doms.push_back( (int) d.syms.size() );
         continue;
      }
      y.type = s.range( 0, 3 );
      int dc = s.weighted( { 3, 6, 5, 3, 2, 1 } );
      y.dim = std::min( o.maxDim, dc < 4 ? dc : ( dc == 4 ? s.range( 4, 9 ) : s.range( 10, 20 ) ) );
      if( y.type == GMS_DT_SET && !o.dim0sets && !y.dim ) y.dim = 1;
      if( y.type == GMS_DT_VAR ) y.user = s.range( 0, GMS_VARTYPE_MAX - 1 );
      else if( y.type == GMS_DT_EQU )
         y.user = GMS_EQU_USERINFO_BASE + s.range( 0, GMS_EQUTYPE_MAX - 1 );
      else if( y.type == GMS_DT_SET )
         y.user = s.chance( 1, 5 );
      y.expl = goodText( genText( s ) );
      if( s.chance( 1, 10 ) ) y.expl = std::string( s.range( 0, 2 ), ' ' ) + std::string( 1, "(*$.=-/0"[s.range( 0, 7 )] ) + ( s.flip() ? "x y" : "" );
      if( o.domains && y.dim && s.chance( 1, 2 ) )
      {
         if( s.flip() )
            for( int k = 0; k < y.dim; k++ ) y.domReg.push_back( s.pick( doms ) );
         else if( s.chance( 1, 3 ) )
            for( int k = 0; k < y.dim; k++ ) y.domX.push_back( s.flip() ? "i" : "i_" + std::to_string( s.range( 1, 3 ) ) );
         else
            for( int k = 0; k < y.dim; k++ ) y.domX.push_back( s.chance( 1, 3 ) ? "*" : ( s.flip() ? std::string( 1, char( 'i' + s.range( 0, 2 ) ) ) + ( s.chance( 1, 4 ) ? "_1" : "" ) : s.chance( 1, 4 ) ? "Dim" + std::to_string( s.range( 1, 3 ) ) : genIdent( s ) ) );
      }
      for( auto &x: y.domX ) x = domSpelling.emplace( upper( x ), x ).first->second;
      y.recs = genToolRecs( s, d, y, o );
      if( o.comments && s.chance( 1, 6 ) )
         for( int k = s.range( 1, 3 ); k > 0; k-- ) y.comments.push_back( goodText( genText( s ) ) );
      if( y.type == GMS_DT_SET )
      {
         sets.push_back( i + 1 );
         if( y.dim == 1 ) doms.push_back( i + 1 );
      }
      d.syms.push_back( std::move( y ) );
   }
   return d;
}

void writeTool( Ctx &c, const TDoc &d, const std::string &fn, int compr )
{
   auto g = mk();
   openWrite( c, *g, fn, compr );
   c.check( g->gdxUELRegisterRawStart() == 1, "registration" );
   for( auto &u: d.uels ) c.check( g->gdxUELRegisterRaw( u.c_str() ) == 1, "label ", q( u ) );
   c.check( g->gdxUELRegisterDone() == 1, "registration" );
   for( auto &a: d.acrs ) c.check( g->gdxAcronymAdd( a.name.c_str(), a.text.c_str(), a.idx ) > 0, "acronym ", a.name );
   for( size_t i = 0; i < d.syms.size(); i++ )
   {
      auto &y = d.syms[i];
      if( y.type == GMS_DT_ALIAS )
      {
         c.check( g->gdxAddAlias( y.name.c_str(), y.aliasOf ? d.syms[y.aliasOf - 1].name.c_str() : "*" ) == 1, "alias ", y.name );
         continue;
      }
      c.check( g->gdxDataWriteRawStart( y.name.c_str(), y.expl.c_str(), y.dim, y.type, y.user ) == 1, "start of ", y.name );
      StrKeys k;
      if( !y.domReg.empty() )
      {
         const char *p[MAXDIM];
         for( int j = 0; j < y.dim; j++ ) p[j] = y.domReg[j] ? d.syms[y.domReg[j] - 1].name.c_str() : "*";
         c.check( g->gdxSymbolSetDomain( p ) == 1, "domain of ", y.name );
      }
      bool isDef = y.dim == 0 && y.recs[0].text.empty();
      if( isDef )
         for( int f = 0; f < 5; f++ ) isDef &= bitsOf( y.recs[0].v[f] ) == bitsOf( toolDefault( y.type, y.user )[f] );
      if( !isDef ) for( auto &r: y.recs )
      {
         double v[5];
         for( int f = 0; f < 5; f++ ) v[f] = r.v[f];
         if( y.type == GMS_DT_SET )
         {
            int nr = 0;
            if( !r.text.empty() ) c.check( g->gdxAddSetText( r.text.c_str(), nr ) == 1, "text" );
            v[0] = nr;
         }
         c.check( g->gdxDataWriteRaw( r.k.data(), v ) == 1, "record of ", y.name, " ", keyStr( r.k ) );
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      if( !y.domX.empty() )
      {
         const char *p[MAXDIM];
         for( int j = 0; j < y.dim; j++ ) p[j] = y.domX[j].c_str();
         c.check( g->gdxSymbolSetDomainX( (int) i + 1, p ) == 1, "relaxed domain of ", y.name );
      }
      for( auto &m: y.comments ) c.check( g->gdxSymbolAddComment( (int) i + 1, m.c_str() ) == 1, "comment" );
   }
   closeOk( c, *g );
}

std::vector<std::string> upKeys( std::vector<std::string> k )
{
   for( auto &x: k ) x = upper( x );
   return k;
}

SDoc readTool( Ctx &c, const std::string &fn )
{
   SDoc d;
   auto g = mk();
   openRead( c, *g, fn );
   int sc = 0, uc = 0;
   c.check( g->gdxSystemInfo( sc, uc ) == 1, fn, ": system info" );
   char b[512], b2[512];
   for( int i = 1; i <= uc; i++ )
   {
      int m;
      c.check( g->gdxUMUelGet( i, b, m ) == 1, fn, ": label ", i );
      d.uels.push_back( b );
   }
   for( int i = 1; i <= g->gdxAcronymCount(); i++ )
   {
      TAcr a;
      c.check( g->gdxAcronymGetInfo( i, b, b2, a.idx ) == 1, fn, ": acronym ", i );
      a.name = b;
      a.text = b2;
      d.acrs.push_back( a );
   }
   for( int i = 1; i <= sc; i++ )
   {
      SSym y;
      int n = 0;
      c.check( g->gdxSymbolInfo( i, b, y.dim, y.type ) == 1, fn, ": symbol ", i );
      y.name = b;
      c.check( g->gdxSymbolInfoX( i, n, y.user, b ) == 1, fn, ": symbol ", i );
      y.expl = b;
      for( auto &r: readStr( c, *g, i, y.dim, y.type ) )
      {
         SRec t;
         t.k = r.k;
         if( y.type == GMS_DT_SET || y.type == GMS_DT_ALIAS )
         {
            int nr = (int) r.v[0], nd;
            if( nr )
            {
               c.check( g->gdxGetElemText( nr, b, nd ) == 1, fn, ": text ", nr, " of ", y.name );
               t.text = b;
            }
         }
         else
            for( int f = 0; f < ( y.type == GMS_DT_PAR ? 1 : 5 ); f++ ) t.v[f] = r.v[f];
         y.recs.push_back( std::move( t ) );
      }
      d.syms.push_back( std::move( y ) );
   }
   g->gdxClose();
   return d;
}

Run runTool( Ctx &c, const std::string &tool, const std::vector<std::string> &args, const std::string &cwd )
{
   const char *td = getenv( "VP_TOOLS" );
   if( !td ) throw std::runtime_error( "VP_TOOLS not set" );
   std::string exe = std::string( td ) + "/" + tool;
   std::vector<char *> av { const_cast<char *>( exe.c_str() ) };
   for( auto &a: args ) av.push_back( const_cast<char *>( a.c_str() ) );
   av.push_back( nullptr );
   int po[2], pe[2];
   if( pipe2( po, O_CLOEXEC ) || pipe2( pe, O_CLOEXEC ) ) throw std::runtime_error( "pipe" );
   posix_spawn_file_actions_t fa;
   posix_spawn_file_actions_init( &fa );
   posix_spawn_file_actions_addopen( &fa, 0, "/dev/null", O_RDONLY, 0 );
   posix_spawn_file_actions_adddup2( &fa, po[1], 1 );
   posix_spawn_file_actions_adddup2( &fa, pe[1], 2 );
   std::string wd = cwd.empty() ? c.dir : cwd;
   posix_spawn_file_actions_addchdir_np( &fa, wd.c_str() );
   pid_t pid;
   if( c.verbose )
   {
      std::string l;
      for( auto &a: args ) l += " " + q( a );
      c.log( "cd ", wd, "; ", tool, l );
   }
   int e = posix_spawn( &pid, exe.c_str(), &fa, nullptr, av.data(), environ );
   posix_spawn_file_actions_destroy( &fa );
   close( po[1] );
   close( pe[1] );
   if( e ) throw std::runtime_error( "cannot start " + exe );
   struct rlimit lim { 60, 60 };// a tool that never ends must not outlive a check that was stopped
   prlimit( pid, RLIMIT_CPU, &lim, nullptr );
   Run r {};
   struct pollfd pf[2] { { po[0], POLLIN, 0 }, { pe[0], POLLIN, 0 } };
   int open_ = 2;
   while( open_ )
   {
      if( poll( pf, 2, -1 ) < 0 )
      {
         if( errno == EINTR ) continue;
         break;
      }
      for( int i = 0; i < 2; i++ )
         if( pf[i].fd >= 0 && pf[i].revents )
         {
            char b[65536];
            ssize_t n = read( pf[i].fd, b, sizeof b );
            if( n > 0 )
            {
               ( i ? r.err : r.out ).append( b, n );
               if( ( i ? r.err : r.out ).size() > ( 1u << 26 ) ) kill( pid, SIGKILL );
            }
            else if( n == 0 || errno != EINTR )
            {
               close( pf[i].fd );
               pf[i].fd = -1;
               open_--;
            }
         }
   }
   int st = 0;
   while( waitpid( pid, &st, 0 ) < 0 && errno == EINTR )
      ;
   r.code = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
   c.check( r.code != 77 || r.err.find( "AddressSanitizer" ) == std::string::npos, tool, " accesses memory wrongly: ", r.err.substr( 0, 1500 ) );
   c.check( r.code < 1000, tool, " ended by signal ", r.code - 1000, " ", r.err.substr( 0, 500 ) );
   if( c.verbose ) c.log( "exit ", r.code, "\n", r.out.substr( 0, 3000 ), r.err.empty() ? "" : "\nstderr: " + r.err.substr( 0, 1000 ) );
   return r;
}

std::string num15( double v )
{
   char b[64];
   snprintf( b, sizeof b, "%.14e", v );
   return b;
}
}// namespace vp
