#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// A sanitizer report ends the worker with a recognisable exit code. Leaks are not judged.
extern "C" const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }
extern "C" const char *__tsan_default_options() { return "exitcode=77:halt_on_error=1:report_thread_leaks=0"; }

namespace vp
{
std::vector<Prop> &registry()
{
   static std::vector<Prop> r;
   return r;
}

std::string hexd( double d )
{
   uint64_t b;
   std::memcpy( &b, &d, 8 );
   char buf[64];
   snprintf( buf, sizeof buf, "%.17g[%016llx]", d, (unsigned long long) b );
   return buf;
}

std::string q( const std::string &s )
{
   std::string r = "\"";
   for( unsigned char ch: s )
   {
      if( ch < 0x20 || ch >= 0x7f || ch == '\\' || ch == '"' )
      {
         char b[8];
         snprintf( b, sizeof b, "\\x%02x", ch );
         r += b;
      }
      else
         r += (char) ch;
   }
   return r + "\"";
}

namespace
{
namespace fs = std::filesystem;
using Clock = std::chrono::steady_clock;
double since( Clock::time_point t ) { return std::chrono::duration<double>( Clock::now() - t ).count(); }

struct Slot {
   volatile long cur;    // case index being run
   volatile long done;   // cases completed
   volatile int failed;  // failed case recorded
   volatile long failIdx;
   char msg[4096];
};

std::string jesc( const std::string &s )
{
   std::string r;
   for( unsigned char ch: s )
   {
      switch( ch )
      {
         case '"': r += "\\\""; break;
         case '\\': r += "\\\\"; break;
         case '\n': r += "\\n"; break;
         case '\t': r += "\\t"; break;
         default:
            if( ch < 0x20 || ch >= 0x7f )
            {
               char b[8];
               snprintf( b, sizeof b, "\\u%04x", ch );
               r += b;
            }
            else
               r += (char) ch;
      }
   }
   return r;
}

uint64_t caseSeed( uint64_t seed, const Prop &p, long i )
{
   uint64_t h = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
   for( char ch: p.id + "/" + p.sub ) h = ( h ^ (unsigned char) ch ) * 1099511628211ULL;
   h ^= (uint64_t) i * 0xd1342543de82ef95ULL;
   splitmix( h );
   return h;
}

std::string baseDir;

void cleanDir( const std::string &d )
{
   std::error_code ec;
   for( auto &e: fs::directory_iterator( d, ec ) ) fs::remove_all( e.path(), ec );
}

struct Outcome {
   bool failed {};
   std::string msg;
   std::vector<uint32_t> used;
};

// Run one choice sequence in a forked child. Detects wrong answers, crashes, hangs.
Outcome runForked( const Prop &p, const std::vector<uint32_t> &choices, int tier, bool verbose, int timeout )
{
   Outcome o;
   int pfd[2];
   if( pipe( pfd ) ) { perror( "pipe" ); exit( 3 ); }
   static int seq {};
   std::string d = baseDir + "/r" + std::to_string( getpid() ) + "_" + std::to_string( seq++ );
   fs::create_directories( d );
   std::string errf = d + ".err";
   fflush( stdout );
   fflush( stderr );
   pid_t pid = fork();
   if( !pid )
   {
      close( pfd[0] );
      if( !verbose )
      {
         int fd = open( errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
         dup2( fd, 2 );
         int nl = open( "/dev/null", O_WRONLY );
         dup2( nl, 1 );
      }
      alarm( timeout );
      Src s;
      s.replay = true;
      s.rec = choices;
      s.tier = tier;
      Ctx c;
      c.dir = d;
      c.tier = tier;
      c.verbose = verbose;
      c.index = -1;
      int rc = 0;
      std::string msg;
      try
      {
         p.fn( s, c );
      }
      catch( const std::exception &e )
      {
         rc = 1;
         msg = e.what();
      }
      if( verbose ) fprintf( stderr, "    case: %s\n", c.desc.c_str() );
      std::string out = ( rc ? "F" : "P" );
      uint32_t n = s.used.size();
      out.append( (const char *) &n, 4 );
      out.append( (const char *) s.used.data(), n * 4 );
      out += msg;
      size_t off = 0;
      while( off < out.size() )
      {
         ssize_t w = write( pfd[1], out.data() + off, out.size() - off );
         if( w <= 0 ) break;
         off += w;
      }
      close( pfd[1] );
      _exit( rc );
   }
   close( pfd[1] );
   std::string buf;
   char tmp[65536];
   ssize_t r;
   while( ( r = read( pfd[0], tmp, sizeof tmp ) ) > 0 ) buf.append( tmp, r );
   close( pfd[0] );
   int st;
   waitpid( pid, &st, 0 );
   bool complete = buf.size() >= 5;
   if( complete )
   {
      uint32_t n;
      std::memcpy( &n, buf.data() + 1, 4 );
      if( buf.size() >= 5 + (size_t) n * 4 )
      {
         o.used.resize( n );
         std::memcpy( o.used.data(), buf.data() + 5, (size_t) n * 4 );
         o.failed = buf[0] == 'F';
         o.msg = buf.substr( 5 + (size_t) n * 4 );
      }
      else
         complete = false;
   }
   if( !complete )
   {
      o.failed = true;
      o.used = choices;
      if( WIFSIGNALED( st ) ) o.msg = WTERMSIG( st ) == SIGALRM ? "the call sequence did not return (time limit of one case)" : "process killed by signal " + std::to_string( WTERMSIG( st ) );
      else
         o.msg = "process ended with exit code " + std::to_string( WEXITSTATUS( st ) );
      std::ifstream f( errf );
      std::string line;
      int k = 0;
      while( std::getline( f, line ) && k < 400 )
      {
         k++;
         if( line.find( "ERROR:" ) != std::string::npos || line.find( "WARNING: ThreadSanitizer" ) != std::string::npos || line.find( "runtime error" ) != std::string::npos || line.find( "/repo/" ) != std::string::npos )
            o.msg += " | " + line;
         if( o.msg.size() > 1500 ) break;
      }
   }
   std::error_code ec;
   fs::remove_all( d, ec );
   fs::remove( errf, ec );
   return o;
}

std::vector<uint32_t> shrink( const Prop &p, std::vector<uint32_t> best, int tier, double budget, std::string &msg, int &tries )
{
   auto t0 = Clock::now();
   int to = std::min( p.caseTimeout, 30 );
   auto attempt = [&]( const std::vector<uint32_t> &cand ) {
      if( since( t0 ) > budget ) return false;
      tries++;
      auto o = runForked( p, cand, tier, false, to );
      if( !o.failed ) return false;
      auto u = o.used;
      // shortlex order
      auto less = []( const std::vector<uint32_t> &a, const std::vector<uint32_t> &b ) {
         return a.size() != b.size() ? a.size() < b.size() : a < b;
      };
      while( !u.empty() && u.back() == 0 ) u.pop_back();
      const auto &pickd = less( u, cand ) ? u : cand;
      if( !less( pickd, best ) ) return false;
      best = pickd;
      msg = o.msg;
      return true;
   };
   bool improved = true;
   while( improved && since( t0 ) < budget )
   {
      improved = false;
      // cut the tail
      for( size_t keep = 0; keep < best.size() && since( t0 ) < budget; keep = keep ? keep * 2 : 1 )
      {
         auto c = best;
         c.resize( keep );
         if( attempt( c ) ) { improved = true; break; }
      }
      // delete chunks
      for( size_t k: { (size_t) 256, (size_t) 64, (size_t) 32, (size_t) 16, (size_t) 8, (size_t) 4, (size_t) 3, (size_t) 2, (size_t) 1 } )
      {
         if( best.size() > 3000 && k < 16 ) continue;
         for( size_t i = best.size() >= k ? best.size() - k + 1 : 0; i-- > 0 && since( t0 ) < budget; )
         {
            if( i + k > best.size() ) continue;
            auto c = best;
            c.erase( c.begin() + i, c.begin() + i + k );
            if( attempt( c ) ) improved = true;
         }
      }
      // zero chunks
      for( size_t k: { (size_t) 16, (size_t) 4, (size_t) 1 } )
         for( size_t i = 0; i + k <= best.size() && since( t0 ) < budget; i += k )
         {
            auto c = best;
            if( std::all_of( c.begin() + i, c.begin() + i + k, []( uint32_t x ) { return !x; } ) ) continue;
            std::fill_n( c.begin() + i, k, 0u );
            if( attempt( c ) ) improved = true;
         }
      // lower single values
      for( size_t i = 0; i < best.size() && since( t0 ) < budget; i++ )
      {
         uint32_t lo = 0, hi = best[i];
         while( hi > lo + 1 && since( t0 ) < budget )
         {
            uint32_t mid = lo + ( hi - lo ) / 2;
            auto c = best;
            if( i >= c.size() ) break;
            c[i] = mid;
            if( attempt( c ) ) { improved = true; hi = mid; }
            else
               lo = mid;
            if( i >= best.size() ) break;
         }
         if( i < best.size() && best[i] > 0 )
         {
            auto c = best;
            c[i]--;
            if( attempt( c ) ) improved = true;
         }
      }
   }
   return best;
}

struct Agg {
   uint64_t evals {}, nontriv {};
   std::unordered_set<uint64_t> distinct;
   std::map<std::string, uint64_t> labels;
   std::vector<std::string> samples;
   std::string rule;
};

struct Violation {
   std::string sub, msg, replay;
};

void writeReplay( const std::string &fn, const Prop &p, const std::vector<uint32_t> &ch, int tier, const std::string &msg )
{
   std::ofstream f( fn );
   f << "vpreplay 1\n"
     << p.id << " " << p.sub << " " << tier << "\n"
     << ch.size() << "\n";
   for( auto x: ch ) f << x << " ";
   f << "\n# " << jesc( msg ) << "\n";
}

const Prop *findProp( const std::string &id, const std::string &sub )
{
   for( auto &p: registry() )
      if( p.id == id && p.sub == sub ) return &p;
   return nullptr;
}
}// namespace

int runMain( int argc, char **argv )
{
   std::string id, tierS = "quick", out, replayFile, replayDir = "/tmp", only, scratch;
   uint64_t seed = 1;
   double budget = 1e9;
   int jobs = 8;
   double scale = 1.0;
   for( int i = 1; i < argc; i++ )
   {
      std::string a = argv[i];
      auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if( a == "--prop" ) id = nxt();
      else if( a == "--tier" ) tierS = nxt();
      else if( a == "--seed" ) seed = std::stoull( nxt() );
      else if( a == "--budget" ) budget = std::stod( nxt() );
      else if( a == "--jobs" ) jobs = std::stoi( nxt() );
      else if( a == "--out" ) out = nxt();
      else if( a == "--replay" ) replayFile = nxt();
      else if( a == "--replay-dir" ) replayDir = nxt();
      else if( a == "--only" ) only = nxt();
      else if( a == "--scale" ) scale = std::stod( nxt() );
      else if( a == "--scratch" ) scratch = nxt();
      else if( a == "--list" )
      {
         for( auto &p: registry() ) printf( "%s %s %ld %ld\n", p.id.c_str(), p.sub.c_str(), p.quickCases, p.thoroughCases );
         return 0;
      }
      else
      {
         fprintf( stderr, "unknown argument %s\n", a.c_str() );
         return 3;
      }
   }
   signal( SIGPIPE, SIG_IGN );
   const int tier = tierS == "thorough" ? 1 : 0;
   char tmpl[256];
   if( scratch.empty() ) scratch = "/tmp";
   snprintf( tmpl, sizeof tmpl, "%s/vpgdx_XXXXXX", scratch.c_str() );
   if( !mkdtemp( tmpl ) ) { perror( "mkdtemp" ); return 3; }
   baseDir = tmpl;
   auto cleanup = [&] {
      std::error_code ec;
      fs::remove_all( baseDir, ec );
   };

   if( !replayFile.empty() )
   {
      std::ifstream f( replayFile );
      std::string w, rid, rsub;
      int ver, rt;
      size_t n;
      f >> w >> ver >> rid >> rsub >> rt >> n;
      std::vector<uint32_t> ch( n );
      for( auto &x: ch ) f >> x;
      const Prop *p = findProp( rid, rsub );
      if( !p )
      {
         fprintf( stderr, "replay: unknown property %s/%s\n", rid.c_str(), rsub.c_str() );
         cleanup();
         return 3;
      }
      auto o = runForked( *p, ch, rt, true, p->caseTimeout );
      cleanup();
      if( o.failed )
      {
         printf( "FAILS property=%s (%s): %s\n", rid.c_str(), rsub.c_str(), o.msg.c_str() );
         return 1;
      }
      printf( "PASSES property=%s (%s)\n", rid.c_str(), rsub.c_str() );
      return 0;
   }

   std::vector<const Prop *> todo;
   for( auto &p: registry() )
      if( p.id == id && ( only.empty() || only == p.sub ) ) todo.push_back( &p );
   if( todo.empty() )
   {
      fprintf( stderr, "no such property %s\n", id.c_str() );
      cleanup();
      return 3;
   }

   auto t0 = Clock::now();
   std::vector<std::pair<const Prop *, Agg>> results;
   std::vector<Violation> viols;
   bool infra = false;
   double totalW = 0;
   for( size_t pi = 0; pi < todo.size(); pi++ ) totalW += 1;
   size_t k = 0;
   for( const Prop *p: todo )
   {
      Agg agg;
      agg.rule = p->rule;
      const long cases = std::max<long>( 1, (long) ( ( tier ? p->thoroughCases : p->quickCases ) * scale ) );
      // the remaining time is shared evenly among the remaining generators
      const double slice = std::max( 1.0, ( budget - since( t0 ) ) / double( todo.size() - k ) );
      k++;
      auto ts = Clock::now();
      auto *slots = (Slot *) mmap( nullptr, sizeof( Slot ) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
      for( int w = 0; w < jobs; w++ ) slots[w].cur = -1;
      std::vector<pid_t> pids( jobs );
      fflush( stdout );
      fflush( stderr );
      for( int w = 0; w < jobs; w++ )
      {
         pid_t pid = fork();
         if( pid ) { pids[w] = pid; continue; }
         std::string d = baseDir + "/w" + std::to_string( w );
         fs::create_directories( d );
         int fd = open( ( baseDir + "/w" + std::to_string( w ) + ".err" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
         dup2( fd, 2 );
         int nl = open( "/dev/null", O_WRONLY );
         dup2( nl, 1 );
         Agg a;
         for( long i = w; i < cases; i += jobs )
         {
            if( since( ts ) > slice ) break;
            slots[w].cur = i;
            Src s;
            s.st = caseSeed( seed, *p, i );
            s.tier = tier;
            Ctx c;
            c.dir = d;
            c.tier = tier;
            c.index = i;
            alarm( p->caseTimeout );
            try
            {
               p->fn( s, c );
            }
            catch( const std::exception &e )
            {
               slots[w].failIdx = i;
               snprintf( slots[w].msg, sizeof slots[w].msg, "%s", e.what() );
               slots[w].failed = 1;
               _exit( 1 );
            }
            alarm( 0 );
            slots[w].done++;
            a.evals++;
            for( auto &[l, n]: c.labels ) a.labels[l] += n;
            if( c.nontrivial )
            {
               a.nontriv++;
               uint64_t h = 1469598103934665603ULL;
               for( auto x: s.rec ) h = ( h ^ x ) * 1099511628211ULL;
               a.distinct.insert( h );
               if( a.samples.size() < 2 && !c.desc.empty() ) a.samples.push_back( "case " + std::to_string( i ) + ": " + c.desc.substr( 0, 400 ) );
            }
            cleanDir( d );
         }
         std::ofstream f( baseDir + "/w" + std::to_string( w ) + ".agg", std::ios::binary );
         f << a.evals << " " << a.nontriv << " " << a.distinct.size() << "\n";
         for( auto x: a.distinct ) f << x << " ";
         f << "\n" << a.labels.size() << "\n";
         for( auto &[l, n]: a.labels ) f << n << " " << l << "\n";
         f << a.samples.size() << "\n";
         for( auto &sm: a.samples ) f << jesc( sm ) << "\n";
         f.close();
         _exit( 0 );
      }
      // wait; on the first failure stop the others
      long failIdx = -1;
      int live = jobs;
      std::string failMsg;
      while( live > 0 )
      {
         int st;
         pid_t pid = wait( &st );
         if( pid < 0 ) break;
         int w = -1;
         for( int i = 0; i < jobs; i++ )
            if( pids[i] == pid ) w = i;
         if( w < 0 ) continue;
         live--;
         pids[w] = -1;
         if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) continue;
         if( failIdx < 0 )
         {
            failIdx = slots[w].failed ? (long) slots[w].failIdx : (long) slots[w].cur;
            failMsg = slots[w].failed ? slots[w].msg : ( WIFSIGNALED( st ) ? "signal " + std::to_string( WTERMSIG( st ) ) : "exit code " + std::to_string( WEXITSTATUS( st ) ) );
            for( int i = 0; i < jobs; i++ )
               if( pids[i] > 0 ) kill( pids[i], SIGKILL );
         }
      }
      for( int w = 0; w < jobs; w++ )
      {
         agg.evals += 0;
         std::ifstream f( baseDir + "/w" + std::to_string( w ) + ".agg", std::ios::binary );
         if( !f )
         {
            agg.evals += slots[w].done;
            continue;
         }
         uint64_t e, nt, nd;
         f >> e >> nt >> nd;
         agg.evals += e;
         agg.nontriv += nt;
         for( uint64_t i = 0; i < nd; i++ )
         {
            uint64_t x;
            f >> x;
            agg.distinct.insert( x );
         }
         size_t nl;
         f >> nl;
         for( size_t i = 0; i < nl; i++ )
         {
            uint64_t n;
            std::string l;
            f >> n;
            f.get();
            std::getline( f, l );
            agg.labels[l] += n;
         }
         size_t ns;
         f >> ns;
         f.get();
         for( size_t i = 0; i < ns; i++ )
         {
            std::string l;
            std::getline( f, l );
            if( agg.samples.size() < 6 ) agg.samples.push_back( l );
         }
      }
      munmap( slots, sizeof( Slot ) * jobs );
      cleanDir( baseDir );
      if( failIdx >= 0 )
      {
         // regenerate the failing choice sequence; the run may crash, so every choice is
         // published through shared memory as it is drawn
         agg.evals++;
         std::vector<uint32_t> ch;
         {
            const size_t cap = 4200000;
            auto *mem = (uint32_t *) mmap( nullptr, cap * 4 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
            pid_t pid = fork();
            if( !pid )
            {
               int nl = open( "/dev/null", O_WRONLY );
               dup2( nl, 1 );
               dup2( nl, 2 );
               alarm( p->caseTimeout );
               std::string d = baseDir + "/gen";
               fs::create_directories( d );
               Src s;
               s.sink = mem;
               s.st = caseSeed( seed, *p, failIdx );
               s.tier = tier;
               Ctx c;
               c.dir = d;
               c.tier = tier;
               c.index = failIdx;
               try { p->fn( s, c ); }
               catch( ... ) {}
               _exit( 0 );
            }
            int st;
            waitpid( pid, &st, 0 );
            ch.assign( mem + 1, mem + 1 + mem[0] );
            munmap( mem, cap * 4 + 8 );
         }
         cleanDir( baseDir );
         std::string msg = failMsg;
         int ok = 0;
         Outcome first = runForked( *p, ch, tier, false, p->caseTimeout );
         if( first.failed )
         {
            msg = first.msg;
            int tries = 0;
            auto best = shrink( *p, ch, tier, tier ? 90 : 45, msg, tries );
            for( int r = 0; r < 3; r++ ) ok += runForked( *p, best, tier, false, p->caseTimeout ).failed;
            if( ok < 3 )
            {
               ok = 0;
               best = ch;
               for( int r = 0; r < 3; r++ )
               {
                  auto o = runForked( *p, best, tier, false, p->caseTimeout );
                  ok += o.failed;
                  if( o.failed ) msg = o.msg;
               }
            }
            if( ok == 3 )
            {
               uint64_t h = 1469598103934665603ULL;
               for( auto x: best ) h = ( h ^ x ) * 1099511628211ULL;
               char hx[32];
               snprintf( hx, sizeof hx, "%016llx", (unsigned long long) h );
               fs::create_directories( replayDir );
               std::string fn = replayDir + "/" + p->id + "-" + p->sub + "-" + hx + ".replay";
               writeReplay( fn, *p, best, tier, msg );
               viols.push_back( { p->sub, msg, fn } );
               fprintf( stderr, "%s/%s: violation after %llu cases (%d shrink runs): %s\n", p->id.c_str(), p->sub.c_str(), (unsigned long long) agg.evals, tries, msg.c_str() );
            }
         }
         if( ok < 3 )
         {
            fprintf( stderr, "%s/%s: case %ld failed once (%s) but does not replay; not reported\n", p->id.c_str(), p->sub.c_str(), failIdx, failMsg.c_str() );
            infra = true;
         }
      }
      results.emplace_back( p, std::move( agg ) );
      if( !viols.empty() ) break;
   }
   if( !out.empty() )
   {
      std::ofstream f( out );
      f << "{\"wall\": " << since( t0 ) << ", \"unreplayed\": " << ( infra ? "true" : "false" ) << ", \"subs\": [";
      bool firstP = true;
      for( auto &[p, a]: results )
      {
         f << ( firstP ? "" : "," ) << "{\"name\":\"" << p->sub << "\",\"rule\":\"" << jesc( a.rule ) << "\",\"evaluations\":" << a.evals << ",\"nontrivial\":" << a.nontriv << ",\"distinct\":" << a.distinct.size() << ",\"labels\":{";
         bool fl = true;
         for( auto &[l, n]: a.labels )
         {
            f << ( fl ? "" : "," ) << "\"" << jesc( l ) << "\":" << n;
            fl = false;
         }
         f << "},\"samples\":[";
         fl = true;
         for( auto &sm: a.samples )
         {
            f << ( fl ? "" : "," ) << "\"" << sm << "\"";
            fl = false;
         }
         f << "]}";
         firstP = false;
      }
      f << "], \"violations\": [";
      bool fv = true;
      for( auto &v: viols )
      {
         f << ( fv ? "" : "," ) << "{\"sub\":\"" << v.sub << "\",\"msg\":\"" << jesc( v.msg ) << "\",\"replay\":\"" << jesc( v.replay ) << "\"}";
         fv = false;
      }
      f << "]}\n";
   }
   cleanup();
   for( auto &v: viols ) printf( "VIOLATION-FOUND property=%s sub=%s replay=%s\n", id.c_str(), v.sub.c_str(), v.replay.c_str() );
   return viols.empty() ? 0 : 1;
}

}// namespace vp

int main( int argc, char **argv ) { return vp::runMain( argc, argv ); }
