// C14: asking and tracing change nothing. One history runs on two objects, the second one also being asked questions
// and told to trace between the calls; everything the history returns and writes is the same.
#include "model.hpp"
#include "ops.hpp"
#include <sys/stat.h>

using namespace vp;

static std::string content( const std::string &p )
{
   std::string r;
   FILE *f = fopen( p.c_str(), "rb" );
   if( !f ) return "<no file>";
   char b[65536];
   size_t n;
   while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.append( b, n );
   fclose( f );
   return r;
}

VP_PROP( C14, asking, "history of at least 20 calls in which a file was written and read, with at least 10 questions in between", 12000, 300000 )
{
   using namespace api;
   // what only answers
   static const std::vector<int> ask { F_SystemInfo, F_SymbolInfo, F_SymbolInfoX, F_SymbolDim, F_SymbolGetDomain, F_SymbolGetDomainX, F_FindSymbol, F_GetUEL, F_UMUelGet, F_UMUelInfo, F_UMFindUEL, F_GetElemText, F_ErrorStr, F_FileVersion, F_FileInfo, F_SymbIndxMaxLength, F_SetHasText, F_SymbMaxLength, F_UELMaxLength, F_SymbolGetComment, F_AcronymCount, F_AcronymGetInfo, F_AcronymGetMapping, F_AcronymIndex, F_AcronymName, F_AcronymValue, F_AcronymNextNr, F_GetSpecialValues, F_MapValue, F_GetDLLVersion, F_CurrentDim, F_GetMemoryUsed, F_DataErrorCount, F_DataErrorRecord, F_DataErrorRecordX, F_FilterExists, F_StoreDomainSets, F_AllowBogusDomains, F_MapAcronymsToNaN, F_ErrorCount };
   std::unique_ptr<Route> R[2];
   for( int i = 0; i < 2; i++ )
   {
      std::string d = c.path( "q" + std::to_string( i ) );
      mkdir( d.c_str(), 0777 );
      for( int f = 0; f < 3; f++ ) remove( ( d + "/f" + std::to_string( f ) + ".gdx" ).c_str() );
      R[i] = routeCpp( d );
   }
   ops::St st;
   int n = s.range( s.chance( 1, 4 ) ? 10 : 60, s.chance( 1, 4 ) ? 300 : 150 ), asked {};
   const int often = s.pick( std::vector<int> { 1, 2, 3, 6 } );
   const bool trace = s.chance( 2, 3 );
   bool wrote {}, read {}, scanned {};// the label lengths of a symbol come from reading it: it is then the current symbol
   auto files = [&] {
      for( int f = 0; f < 3; f++ )
      {
         std::string n = "/f" + std::to_string( f ) + ".gdx";
         c.check( content( R[0]->dir + n ) == content( R[1]->dir + n ), "file ", f, " differs when questions were asked or tracing was on" );
      }
   };
   for( int k = 0; k < n; k++ )
   {
      Call x = ops::gen( s, st );
      while( s.chance( 1, often + 1 ) )
      {
         int fn = trace && s.chance( 1, 5 ) ? (int) F_SetTraceLevel : s.pick( ask );
         Call q = ops::gen( s, st, fn );
         if( fn == F_SetTraceLevel ) q.i[0] = s.range( 0, 3 );
         if( fn == F_AcronymNextNr ) q.i[0] = -1;
         // a refused question is an error, and the errors up to a symbol's end are counted in the file: the first object
         // is given as many errors
         Call cnt, bad;
         cnt.fn = F_ErrorCount, bad.fn = F_SymbolGetDomain;
         Res a, e0, e1;
         R[1]->call( cnt, e0 );
         R[1]->call( q, a );
         R[1]->call( cnt, e1 );
         for( long e = e0.ret; e < e1.ret; e++ )
         {
            Res b;
            R[0]->call( bad, b );
            c.check( !b.ret, "gdxSymbolGetDomain of symbol 0 is accepted" );
         }
         c.log( "  asked: ", show( q ) );
         asked++;
         scanned |= fn == F_SymbIndxMaxLength;
      }
      Res r[2];
      std::string t[2];
      c.log( show( x ) );
      for( int i = 0; i < 2; i++ )
      {
         R[i]->call( x, r[i] );
         t[i] = show( x, r[i] );
      }
      c.log( "   ", t[0].substr( 0, 300 ) );
      // the first key handed to a callback for a scalar means nothing
      bool scalar {};
      if( scanned && r[0].cbCount > 0 )
      {
         Call d;
         d.fn = F_SymbolDim, d.i[0] = x.i[0];
         Res a;
         R[0]->call( d, a );
         scalar = a.ret == 0;
      }
      if( !scalar && x.fn != F_GetLastError && x.fn != F_GetMemoryUsed && !( scanned && ( x.fn == F_CurrentDim || x.fn == F_DataErrorCount || x.fn == F_DataErrorRecord || x.fn == F_DataErrorRecordX ) ) )// hash tables come into being with the first search
         c.check( t[0] == t[1], "call ", k, " ", show( x ), " gives ", t[1].substr( 0, 600 ), " after questions or with tracing on, but ", t[0].substr( 0, 600 ), " without" );
      ops::after( st, x, r[0] );
      if( r[0].ret > 0 )
      {
         wrote |= x.fn == F_DataWriteStr || x.fn == F_DataWriteRaw || x.fn == F_DataWriteMap;
         read |= x.fn == F_DataReadStr || x.fn == F_DataReadRaw || x.fn == F_DataReadMap || r[0].cbCount > 0;
      }
      if( x.fn == F_Close ) files();
   }
   for( auto &p: R )
   {
      Call x;
      x.fn = F_Close;
      Res q;
      p->call( x, q );
   }
   files();
   for( auto &p: R ) p.reset();
   c.nontrivial = n >= 20 && wrote && read && asked >= 10;
   c.desc = std::to_string( n ) + " calls, " + std::to_string( asked ) + " questions";
}
