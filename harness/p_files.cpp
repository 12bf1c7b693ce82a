// C15 unfinished, cut-off and foreign files; C16 refused writes.
// The write(2) function is replaced in this program, so that a session can be stopped, cut short or
// refused at any of its physical writes.
#include "model.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;

namespace
{
struct Inject {
   bool on {};
   int mode {};// 0 count, 1 crash, 2 refuse from there on, 3 refuse once, 4 partial then refuse from there on, 5 short/interrupted writes without failure, 6 partial once then refuse once
   int at {};  // number of the write (from 1)
   double part {};
   int err { ENOSPC };
   int count {};
   bool hit {};
   bool torn {};
   uint64_t rnd {};
   int64_t bytes {};
} inj;

ssize_t rawWrite( int fd, const void *b, size_t n ) { return syscall( SYS_write, fd, b, n ); }
}// namespace

extern "C" ssize_t write( int fd, const void *b, size_t n )
{
   if( !inj.on || fd <= 2 ) return rawWrite( fd, b, n );
   struct stat st;
   if( fstat( fd, &st ) || !S_ISREG( st.st_mode ) ) return rawWrite( fd, b, n );
   inj.count++;
   size_t k = n ? size_t( inj.part * ( n - 1 ) ) : 0;
   switch( inj.mode )
   {
      case 1:
         if( inj.count == inj.at )
         {
            if( k ) (void) !rawWrite( fd, b, k );
            _exit( 42 );
         }
         break;
      case 2:
         if( inj.count >= inj.at )
         {
            inj.hit = true;
            errno = inj.err;
            return -1;
         }
         break;
      case 3:
         if( inj.count == inj.at )
         {
            inj.hit = true;
            errno = inj.err;
            return -1;
         }
         break;
      case 4:
         if( inj.count >= inj.at )
         {
            if( inj.count == inj.at && k )
            {
               inj.hit = true;
               return rawWrite( fd, b, k );
            }
            inj.hit = true;
            errno = inj.err;
            return -1;
         }
         break;
      case 5: {
         uint64_t r = splitmix( inj.rnd );
         if( r % 4 == 0 )
         {
            inj.hit = true;
            errno = EINTR;
            return -1;
         }
         if( r % 4 == 1 && n > 1 )
         {
            inj.hit = true;
            return rawWrite( fd, b, 1 + ( r >> 8 ) % ( n - 1 ) );
         }
         break;
      }
      default: break;
   }
   return rawWrite( fd, b, n );
}

static Src subSrc( Src &s )
{
   Src t;
   t.st = ( (uint64_t) s.bits32() << 32 ) | s.bits32();
   t.tier = s.tier;
   return t;
}

// A writing session that can be repeated exactly.
struct Sess {
   Plan p;
   WriteCfg w;
   uint64_t seed {};
   int compr {};
   int tier {};
   void run( Ctx &c, TGXFileObj &g, Doc &d ) const
   {
      Src t;
      t.st = seed;
      t.tier = tier;
      writePlan( c, t, g, p, w, d );
   }
};
static Sess genSess( Src &s, bool bulky )
{
   GenOpt o;
   o.rich = true;
   o.maxRecs = bulky ? 400 : 60;
   o.big = false;
   Sess r;
   r.p = genPlan( s, o );
   r.w = genWriteCfg( s, r.p );
   if( bulky && s.chance( 2, 3 ) )
   {// some symbols with enough data for several physical writes
      if( r.p.pool.size() < 3 ) r.p.pool = { "b1", "b2", "b3" };
      r.w = genWriteCfg( s, r.p );
      int n = (int) r.p.pool.size(), k = s.range( 1, 2 );
      std::set<std::string> used;
      for( auto &y: r.p.syms ) used.insert( upper( y.name ) );
      for( int i = 0; i < k; i++ )
      {
         SymPlan y;
         y.name = "bulk" + std::to_string( i );
         if( used.count( upper( y.name ) ) ) continue;
         y.expl = "bulk";
         y.type = GMS_DT_VAR;
         y.user = 0;
         y.dim = 8;
         int cnt = s.range( 300, s.tier ? 4000 : 1800 );
         uint64_t st = s.bits32();
         Key key( 8, 1 );
         for( int j = 0; j < cnt; j++ )
         {
            V5 v {};
            for( auto &x: v ) x = double( splitmix( st ) % 1000003 ) / 7 + 0.01;
            y.recs.push_back( { key, v } );
            int pos = 7;
            while( pos >= 0 && ++key[pos] > std::min( n, 3 ) ) key[pos--] = 1;
            if( pos < 0 ) break;
         }
         r.p.syms.push_back( y );
         r.w.mode.push_back( s.flip() ? W_RAW : W_STR );
      }
   }
   r.compr = s.range( 0, 1 );
   r.w.compr = r.compr;
   r.seed = ( (uint64_t) s.bits32() << 32 ) | s.bits32();
   r.tier = s.tier;
   return r;
}

static bool rejects( Ctx &c, TGXFileObj &g, const std::string &fn, int how, const std::string &what )
{
   int err = 0;
   int r = how == 2 ? g.gdxOpenAppend( fn.c_str(), "vp", err ) : ( how == 1 ? g.gdxOpenReadEx( fn.c_str(), 1, err ) : g.gdxOpenRead( fn.c_str(), err ) );
   if( r == 0 )
   {
      c.check( err != 0, what, ": open failed without an error code" );
      char msg[256] {};
      g.gdxErrorStr( err, msg );
      c.check( msg[0] != 0, what, ": no message for error ", err );
      return true;
   }
   c.check( r == 1 && err == 0, what, ": open returned ", r, " with error ", err );
   return false;
}

VP_PROP( C15, crash, "a session stopped at one of its physical writes, before the last one, with data accepted before", 1350, 60000 )
{
   Sess ss = genSess( s, true );
   std::string fn = c.path( "a.gdx" );
   bool append = s.chance( 1, 3 );
   Doc oldDoc;
   std::string oldBytes;
   Sess os;
   if( append )
   {
      os = genSess( s, s.chance( 1, 3 ) );
      // distinct names for the two sessions
      for( size_t i = 0; i < os.p.syms.size(); i++ ) os.p.syms[i].name = "o" + std::to_string( i );
      for( size_t i = 0; i < ss.p.syms.size(); i++ ) ss.p.syms[i].name = "n" + std::to_string( i );
      auto g = mk();
      openWrite( c, *g, fn, os.compr );
      os.run( c, *g, oldDoc );
      closeOk( c, *g );
      oldBytes = slurpFile( fn );
   }
   auto session = [&]( Doc &d ) {
      auto g = mk();
      int err = 0;
      if( !append )
      {
         openWrite( c, *g, fn, ss.compr );
         ss.run( c, *g, d );
      }
      else
      {
         c.check( g->gdxOpenAppend( fn.c_str(), "vp", err ) == 1 && err == 0, "append refused ", err );
         // labels and symbols by strings only: numbering continues after the old labels
         for( auto &y: ss.p.syms )
         {
            if( y.type == GMS_DT_ALIAS ) continue;
            c.check( g->gdxDataWriteStrStart( y.name.c_str(), "x", y.dim, y.type, y.user ) == 1, "start" );
            for( auto &r: y.recs )
            {
               const char *k[MAXDIM];
               for( int i = 0; i < y.dim; i++ ) k[i] = ss.p.pool[r.k[i] - 1].c_str();
               V5 v = r.v;
               if( y.type == GMS_DT_SET ) v[0] = 0;
               g->gdxDataWriteStr( k, v.data() );
            }
            c.check( g->gdxDataWriteDone() == 1, "done" );
         }
      }
      closeOk( c, *g );
   };
   // count the physical writes
   inj = Inject {};
   inj.on = true;
   Doc d;
   try
   {
      session( d );
   }
   catch( ... )
   {
      inj.on = false;
      throw;
   }
   inj.on = false;
   int total = inj.count;
   std::string full = slurpFile( fn );
   int tries = s.range( 1, 4 );
   for( int t = 0; t < tries && total > 0; t++ )
   {
      int at = s.range( 1, total );
      double part = at < total && s.flip() ? s.range( 0, 1000 ) / 1000.0 : 0.0;// the last write is the index; one small write is not torn
      if( append ) spitFile( fn, oldBytes );
      else if( s.flip() )
         spitFile( fn, full );// a complete file was there before
      else
         remove( fn.c_str() );
      pid_t pid = fork();
      if( pid == 0 )
      {
         inj = Inject {};
         inj.on = true;
         inj.mode = 1;
         inj.at = at;
         inj.part = part;
         Doc dd;
         try
         {
            session( dd );
         }
         catch( ... )
         {
            _exit( 43 );
         }
         _exit( 0 );
      }
      int st = 0;
      waitpid( pid, &st, 0 );
      c.check( WIFEXITED( st ) && WEXITSTATUS( st ) == 42, "the stopped session ended differently: status ", st );
      std::string what = "session stopped at physical write " + std::to_string( at ) + " of " + std::to_string( total );
      auto h = mkUsed( c, s );
      int how = s.range( 0, 2 );
      std::string before = slurpFile( fn );
      if( !rejects( c, *h, fn, how, what ) )
      {
         c.check( append, what, ": the unfinished file was accepted" );
         // an append that never finished: then the old content, all of it, and nothing else
         if( how == 2 ) closeOk( c, *h );
         else
         {
            if( how == 0 )
            {
               checkMeta( c, *h, oldDoc );
               checkData( c, *h, oldDoc );
            }
            closeOk( c, *h );
         }
         c.label( "append undone" );
      }
      else
      {
         c.check( slurpFile( fn ) == before, what, ": the failed open changed the file" );
         c.label( "rejected" );
      }
      if( at > 1 || append ) c.nontrivial = true;
      // the object is as good as new
      int err = 0;
      std::string good = c.path( "good.gdx" );
      spitFile( good, full );
      c.check( h->gdxOpenRead( good.c_str(), err ) == 1 && err == 0, "a complete file is rejected after a failed open, error ", err );
      if( !append )
      {
         checkMeta( c, *h, d );
         checkData( c, *h, d );
      }
      closeOk( c, *h );
   }
   c.label( "physical writes", total );
   c.desc = std::string( append ? "append" : "new" ) + ", " + std::to_string( ss.p.syms.size() ) + " symbols, " + std::to_string( total ) + " physical writes" + ( ss.compr ? ", compressed" : "" );
}

VP_PROP( C15, cut, "at least 100 different prefixes of a complete file were opened", 390, 12000 )
{
   Sess ss = genSess( s, s.chance( 1, 8 ) );
   std::string fn = c.path( "a.gdx" ), cut = c.path( "cut.gdx" );
   Doc d;
   auto g = mk();
   openWrite( c, *g, fn, ss.compr );
   ss.run( c, *g, d );
   closeOk( c, *g );
   std::string full = slurpFile( fn );
   auto h = mk();
   std::set<size_t> lens;
   int mode = s.range( 0, 2 );
   size_t n = full.size();
   if( n < 1500 )
      for( size_t i = 0; i < n; i++ ) lens.insert( i );
   else
   {
      for( size_t i = 0; i < 60; i++ ) lens.insert( n - 1 - i );
      for( size_t i = 0; i < 200; i++ ) lens.insert( i );
      for( int i = 0; i < 300; i++ ) lens.insert( s.bits32() % n );
   }
   for( size_t l: lens )
   {
      spitFile( cut, full.substr( 0, l ) );
      std::string what = "a file cut to " + std::to_string( l ) + " of " + std::to_string( n ) + " bytes";
      c.check( rejects( c, *h, cut, mode, what ), what, " was accepted" );
      if( l % 37 == 0 ) c.check( slurpFile( cut ) == full.substr( 0, l ), what, ": the failed open changed it" );
   }
   spitFile( cut, full );
   c.check( !rejects( c, *h, cut, 0, "the complete file" ), "the complete file is rejected after failed opens" );
   checkMeta( c, *h, d );
   checkData( c, *h, d );
   closeOk( c, *h );
   c.check( slurpFile( cut ) == full, "reading changed the file" );
   c.nontrivial = lens.size() >= 100;
   c.label( "prefixes", lens.size() );
   c.label( mode == 2 ? "append" : ( mode == 1 ? "read without texts" : "read" ) );
   c.desc = std::to_string( n ) + " bytes, " + std::to_string( lens.size() ) + " prefixes" + ( ss.compr ? ", compressed" : "" );
}

VP_PROP( C15, foreign, "a file that exists but is not in the format, opened on an object that then opens a good file", 9000, 400000 )
{
   std::string fn = c.path( "f.gdx" ), good = c.path( "g.gdx" );
   Sess ss = genSess( s, false );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, good, ss.compr );
   ss.run( c, *g, d );
   closeOk( c, *g );
   std::string full = slurpFile( good );
   int n = s.range( 1, 4 );
   for( int i = 0; i < n; i++ )
   {
      std::string b, what;
      int kind = s.range( 0, 7 ), how = s.range( 0, 2 );
      remove( fn.c_str() );
      switch( kind )
      {
         case 0: what = "a missing file"; how %= 2; break;
         case 1: what = "an empty file"; break;
         case 2: {
            what = "a file of random bytes";
            uint64_t st = s.bits32();
            int l = s.range( 1, 3000 );
            for( int j = 0; j < l; j++ ) b += char( splitmix( st ) );
            if( b[0] == 2 ) b[0] = 3;
            break;
         }
         case 3: {
            what = "a text file";
            b = "GAMSGDX\n";
            for( int j = s.range( 0, 50 ); j > 0; j-- ) b += genText( s ) + "\n";
            break;
         }
         case 4: {// one byte of the part that identifies the file is different
            what = "a file with a wrong byte in its identification";
            b = full;
            size_t at = s.range( 0, 25 );// byte order patterns, header number and name (in any case)
            if( at >= 19 && ( b[at] | 32 ) >= 'a' && ( b[at] | 32 ) <= 'z' ) b[at] = char( b[at] + 64 );
            else
               b[at] = char( b[at] + 1 + s.range( 0, 200 ) );
            what += " (" + std::to_string( at ) + ")";
            break;
         }
         case 5: {
            what = "a file of a later version";
            b = full;
            b[26] = char( 8 + s.range( 0, 100 ) );
            break;
         }
         case 6: {
            what = "an unfinished file (index never written)";
            b = full;
            size_t p = 26 + 8;
            p += 1 + (uint8_t) b[p];
            p += 1 + (uint8_t) b[p];
            for( int j = 0; j < 4; j++ ) b[p + j] = 0;
            break;
         }
         default: what = "an empty name"; break;
      }
      if( kind != 0 && kind != 7 ) spitFile( fn, b );
      c.check( rejects( c, *g, kind == 7 ? "" : fn, how, what ), what, " was accepted" );
      if( kind == 0 )
         c.check( access( fn.c_str(), F_OK ) != 0, "reading a missing file created it" );
      else if( kind != 7 )
      {
         c.check( slurpFile( fn ) == b, what, ": the failed open changed it" );
         c.nontrivial = true;
      }
      c.desc += what + "; ";
      c.label( what.substr( 0, what.find( '(' ) ) );
      int e = 0, u = -1, sy = -1;
      c.check( g->gdxSystemInfo( sy, u ) != 1 || ( sy == 0 && u == 0 ), what, ": after the failed open ", sy, " symbols and ", u, " labels are reported" );
      (void) e;
   }
   struct stat s0, s1;
   stat( good.c_str(), &s0 );
   openRead( c, *g, good );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   c.check( g->gdxErrorCount() == 0, "errors counted" );
   closeOk( c, *g );
   stat( good.c_str(), &s1 );
   c.check( slurpFile( good ) == full && s0.st_mtim.tv_nsec == s1.st_mtim.tv_nsec && s0.st_mtim.tv_sec == s1.st_mtim.tv_sec, "reading changed the file" );
}

// ------------------------------------------------------------------ C16
VP_PROP( C16, refused, "a physical write of the session was refused, partly done or interrupted", 1500, 200000 )
{
   Sess ss = genSess( s, s.chance( 3, 4 ) );
   std::string fn = c.path( "a.gdx" );
   bool append = s.chance( 1, 4 );
   Doc base, d;
   std::string oldBytes;
   if( append )
   {
      Sess os = genSess( s, false );
      os.compr = ss.compr;
      for( size_t i = 0; i < os.p.syms.size(); i++ ) os.p.syms[i].name = "o" + std::to_string( i );
      auto g = mk();
      openWrite( c, *g, fn, os.compr );
      os.run( c, *g, base );
      closeOk( c, *g );
      oldBytes = slurpFile( fn );
   }
   bool asksError = s.chance( 1, 3 );
   bool conv = !ss.compr && !append && s.flip();// automatic conversion on, with nothing to convert
   bool reported = false, reopened = s.chance( 1, 3 );
   // one session; true when some call reported a problem
   auto session = [&]( Doc &dd ) {
      auto g = mk();
      g->gdxAutoConvert( conv ? 1 : 0 );
      int err = 0;
      dd = base;
      try
      {
         if( append )
         {
            if( g->gdxOpenAppend( fn.c_str(), "vp", err ) != 1 || err ) return true;
            for( size_t i = 0; i < ss.p.syms.size(); i++ )
            {
               auto &y = ss.p.syms[i];
               if( y.type == GMS_DT_ALIAS ) continue;
               Sym m;
               m.name = "n" + std::to_string( i );
               m.dim = y.dim;
               m.type = y.type;
               m.user = y.user;
               m.expl = "x";
               if( g->gdxDataWriteStrStart( m.name.c_str(), "x", y.dim, y.type, y.user ) != 1 ) return true;
               std::map<Key, V5> recs;
               for( auto &r: y.recs )
               {
                  const char *k[MAXDIM];
                  Key key;
                  for( int q = 0; q < y.dim; q++ )
                  {
                     k[q] = ss.p.pool[r.k[q] - 1].c_str();
                     key.push_back( dd.addUel( k[q] ) );
                  }
                  V5 v = r.v;
                  if( y.type == GMS_DT_SET ) v[0] = 0;
                  if( g->gdxDataWriteStr( k, v.data() ) != 1 ) return true;
                  recs.insert( { key, v } );
               }
               if( g->gdxDataWriteDone() != 1 ) return true;
               for( auto &[k, v]: recs ) m.recs.push_back( { k, v } );
               if( m.recs.empty() && !m.dim ) m.recs.push_back( { {}, defaultRec( m.type, m.user ) } );
               dd.syms.push_back( m );
            }
         }
         else
         {
            if( g->gdxOpenWriteEx( fn.c_str(), "vp", ss.compr, err ) != 1 || err ) return true;
            ss.run( c, *g, dd );
         }
      }
      catch( const Fail & )
      {
         if( !inj.hit ) throw;
         return true;
      }
      bool bad = false;
      if( asksError ) bad |= g->gdxGetLastError() != 0;
      bad |= g->gdxClose() != 0;
      return bad;
   };
   inj = Inject {};
   inj.on = true;
   inj.mode = 0;
   bool r;
   try
   {
      r = session( d );
   }
   catch( ... )
   {
      inj.on = false;
      throw;
   }
   inj.on = false;
   c.check( !r, "a problem was reported without any refused write" );
   int total = inj.count;
   {
      auto h = mk();
      openRead( c, *h, fn );
      checkData( c, *h, d );
      closeOk( c, *h );
   }
   static const int errs[] = { ENOSPC, EIO, EFBIG, EDQUOT };
   int tries = total <= 6 ? total + 1 : 4;
   for( int t = 0; t < tries; t++ )
   {
      Inject k;
      k.on = true;
      k.mode = s.range( 2, 5 );
      k.at = total <= 6 ? 1 + t % total : s.range( 1, total );
      k.part = s.range( 0, 1000 ) / 1000.0;
      k.err = errs[s.range( 0, 3 )];
      k.rnd = s.bits32();
      if( append ) spitFile( fn, oldBytes );
      else
         remove( fn.c_str() );
      Doc dd;
      inj = k;
      try
      {
         reported = session( dd );
      }
      catch( ... )
      {
         inj.on = false;
         throw;
      }
      bool hit = inj.hit;
      inj.on = false;
      if( hit ) c.nontrivial = true;
      std::string what = std::string( k.mode == 5 ? "interrupted writes" : ( k.mode == 4 ? "partial write then refused" : ( k.mode == 3 ? "one refused write" : "refused writes" ) ) ) + " at physical write " + std::to_string( k.at ) + " of " + std::to_string( total );
      c.label( k.mode == 5 ? "interrupted" : ( k.mode == 4 ? "partial" : ( k.mode == 3 ? "once" : "from there on" ) ) );
      if( !hit ) c.check( !reported, what, ": a problem was reported although nothing was refused" );
      if( k.mode == 5 ) c.check( !reported, what, ": a problem was reported although all data could be written" );
      if( reported ) continue;
      auto h = mk();
      int err = 0;
      c.check( h->gdxOpenRead( fn.c_str(), err ) == 1 && err == 0, what, ": nothing was reported, but the file cannot be opened, error ", err );
      try
      {
         checkMeta( c, *h, d );
         checkData( c, *h, d );
      }
      catch( const Fail &f )
      {
         c.fail( what, ": nothing was reported, but the file is wrong: ", f.what() );
      }
      closeOk( c, *h );
   }
   (void) reopened;
   c.label( "physical writes", total );
   c.desc = std::string( append ? "append" : "new" ) + ", " + std::to_string( ss.p.syms.size() ) + " symbols, " + std::to_string( total ) + " physical writes" + ( ss.compr ? ", compressed" : "" ) + ( conv ? ", automatic conversion on" : "" );
}
