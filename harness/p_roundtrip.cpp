// Round trip, write-mode and read-mode equivalence.
#include "model.hpp"
#include <filesystem>
using namespace vp;

// The name of the file is up to the caller: extension, blanks, bytes beyond ASCII, length, and how the directory is written.
static std::string someName( Ctx &c, Src &s )
{
   static const char *names[] = { "a.gdx", "a", "A b  c.gdx", " x.gdx", "x.gdx ", "\xc3\xa4\xe6\xbc\xa2.gdx", "\xe4\xff.gdx", "a.b.c", ".gdx", "-o.gdx", "a'b\"c.gdx", "a;b,c=d.gdx", "%n%s.gdx", "a\\b.gdx", "~.gdx", "$HOME.gdx", "a\tb.gdx" };
   std::string n = names[s.range( 0, sizeof( names ) / sizeof( *names ) - 1 )];
   if( s.chance( 1, 5 ) ) n += std::string( s.range( 150, 255 - (int) n.size() ), 'n' );
   std::string f = c.path( n );
   switch( s.range( 0, 5 ) )
   {
      case 1:
         f = std::filesystem::relative( std::filesystem::path( f ).parent_path() ).string() + "/" + n;
         break;
      case 2:
         f = std::filesystem::path( f ).parent_path().string() + "/./" + ( s.flip() ? "/" : "" ) + n;
         break;
      case 3: {
         std::string dir = c.path( "sub dir.x" );
         std::filesystem::create_directories( dir );
         for( int i = s.range( 0, 60 ); i > 0; i-- ) dir += "/../sub dir.x";
         f = dir + "/" + n;
         break;
      }
   }
   return f;
}

VP_PROP( C01, roundtrip, "a file with at least one symbol holding at least two records (or a scalar with data) was written, closed and completely read back", 12000, 400000 )
{
   GenOpt o;
   o.maxSyms = 5;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = s.chance( 1, 4 ) ? someName( c, s ) : c.path( "a.gdx" );
   Doc d;
   {
      auto g = mkUsed( c, s );
      openWrite( c, *g, fn, w.compr );
      writePlan( c, s, *g, p, w, d );
      closeOk( c, *g );
   }
   auto g = mkUsed( c, s );
   openRead( c, *g, fn );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   c.check( g->gdxErrorCount() == 0, "errors counted while reading" );
   closeOk( c, *g );
   c.check( std::filesystem::is_regular_file( fn ), "the file is not where it was written to: ", q( fn ) );
   for( auto &y: d.syms )
   {
      if( y.recs.size() >= 2 || ( y.dim == 0 && y.recs.size() ) ) c.nontrivial = true;
      c.label( "dim>=4", y.dim >= 4 );
      c.label( "records", y.recs.size() );
   }
   c.label( "regime" + std::to_string( p.regime ) );
   c.label( w.compr ? "compressed" : "plain" );
   c.desc = p.describe() + " reg " + std::to_string( w.regMode ) + ( w.compr ? " compressed" : "" );
}
