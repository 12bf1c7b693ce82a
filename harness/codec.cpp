#include "codec.hpp"
#include <algorithm>

namespace vp
{
static double special( int code )
{
   switch( code )
   {
      case 0: return 1.0e300; // undefined
      case 1: return 2.0e300; // not available
      case 2: return 3.0e300; // plus infinity
      case 3: return 4.0e300; // minus infinity
      case 4: return 5.0e300; // epsilon
      case 5: return 0.0;
      case 6: return 1.0;
      case 7: return -1.0;
      case 8: return 0.5;
      case 9: return 2.0;
   }
   return 0;
}

FileDoc decodeFile( const std::string &bytes )
{
   FileDoc f;
   Decoder r( bytes );
   auto need = []( bool ok, const std::string &m ) {
      if( !ok ) throw DecodeError( m );
   };
   need( r.num<uint8_t>() == 2 && r.num<uint16_t>() == 0x1234, "word pattern" );
   need( r.num<uint8_t>() == 4 && r.num<int32_t>() == 0x12345678, "integer pattern" );
   need( r.num<uint8_t>() == 8 && r.num<double>() == 3.141592653589793238462643, "double pattern" );
   need( r.num<uint8_t>() == 123, "header number" );
   r.mark( "GAMSGDX" );
   f.version = r.num<int32_t>();
   need( f.version == 7, "version " + std::to_string( f.version ) );
   f.compr = r.num<int32_t>();
   need( f.compr == 0 || f.compr == 1, "compression indicator" );
   f.audit = r.str();
   f.producer = r.str();
   need( r.num<int32_t>() == 19510624, "index mark" );
   int64_t p[6];
   for( auto &x: p ) x = r.num<int64_t>();
   int64_t symb = p[0], uel = p[1], sett = p[2], acro = p[3], next = p[4], doms = p[5];
   // 80 bytes are reserved for the index
   size_t dataStart = r.tell() - 52 + 80;
   need( next == symb, "next write position is not the symbol table" );
   need( symb < sett && sett < uel && uel < acro && acro < doms && doms < (int64_t) bytes.size(), "order of the tables" );
   need( symb >= (int64_t) dataStart, "tables overlap the header" );
   auto endOf = [&]( int64_t e, const char *what ) {
      need( (int64_t) r.tell() == e && ( !f.compr || r.blockDone() ), std::string( "the end of the " ) + what + " table is at " + std::to_string( r.tell() ) + ", expected " + std::to_string( e ) );
   };
   // symbols
   r.seek( symb, f.compr );
   r.mark( "_SYMB_" );
   int n = r.num<int32_t>();
   need( n >= 0, "symbol count" );
   std::vector<int64_t> at( n );
   std::vector<int> cnt( n );
   std::set<std::string> names;
   for( int i = 0; i < n; i++ )
   {
      Sym y;
      y.name = r.str();
      need( names.insert( upper( y.name ) ).second, "symbol name used twice" );
      at[i] = r.num<int64_t>();
      y.dim = r.num<int32_t>();
      y.type = r.num<uint8_t>();
      need( y.dim >= 0 && y.dim <= 20 && y.type <= 4, "dimension or type of a symbol" );
      y.user = r.num<int32_t>();
      cnt[i] = r.num<int32_t>();
      y.errors = r.num<int32_t>();
      f.hasText.push_back( r.num<uint8_t>() );
      y.hasText = f.hasText.back();
      y.expl = r.str();
      f.symCompr.push_back( r.num<uint8_t>() != 0 );
      if( r.num<uint8_t>() )
      {
         y.domKind = 3;
         for( int k = 0; k < y.dim; k++ )
         {
            int v = r.num<int32_t>();
            need( v >= 0 && v <= n, "domain symbol number" );
            y.dom.push_back( std::to_string( v ) );
         }
      }
      int nc = r.num<int32_t>();
      need( nc >= 0, "comment count" );
      for( int k = 0; k < nc; k++ ) y.comments.push_back( r.str() );
      if( y.type == GMS_DT_ALIAS )
      {
         y.aliasOf = y.user;
         need( y.user >= 0 && y.user <= n, "alias target" );
      }
      f.d.syms.push_back( y );
   }
   r.mark( "_SYMB_" );
   endOf( sett, "symbol" );
   for( auto &y: f.d.syms )
      if( y.domKind == 3 )
         for( auto &x: y.dom ) x = x == "0" ? "*" : f.d.syms[std::stoi( x ) - 1].name;
   // texts
   r.seek( sett, f.compr );
   r.mark( "_SETT_" );
   n = r.num<int32_t>();
   f.d.texts.clear();
   for( int i = 0; i < n; i++ ) f.d.texts.push_back( r.str() );
   f.fileTexts = f.d.texts;
   r.mark( "_SETT_" );
   endOf( uel, "text" );
   // labels
   r.seek( uel, f.compr );
   r.mark( "_UEL_" );
   n = r.num<int32_t>();
   for( int i = 0; i < n; i++ ) need( f.d.addUel( r.str() ) == i + 1, "label stored twice" );
   r.mark( "_UEL_" );
   endOf( acro, "label" );
   // acronyms
   r.seek( acro, f.compr );
   r.mark( "_ACRO_" );
   n = r.num<int32_t>();
   for( int i = 0; i < n; i++ )
   {
      Acr a;
      a.name = r.str();
      a.text = r.str();
      a.idx = r.num<int32_t>();
      f.acrs.push_back( a );
   }
   r.mark( "_ACRO_" );
   endOf( doms, "acronym" );
   // relaxed domains
   r.seek( doms, f.compr );
   r.mark( "_DOMS_" );
   n = r.num<int32_t>();
   std::vector<std::string> dn { "*" };
   for( int i = 0; i < n; i++ ) dn.push_back( r.str() );
   r.mark( "_DOMS_" );
   while( true )
   {
      int sy = r.num<int32_t>();
      if( sy == -1 ) break;
      need( sy >= 1 && sy <= (int) f.d.syms.size(), "symbol number in the domain table" );
      Sym &y = f.d.syms[sy - 1];
      y.domKind = 2;
      y.dom.clear();
      for( int k = 0; k < y.dim; k++ )
      {
         int v = r.num<int32_t>();
         need( v >= 0 && v < (int) dn.size(), "domain name number" );
         y.dom.push_back( dn[v] );
      }
   }
   r.mark( "_DOMS_" );
   need( (int64_t) r.tell() <= (int64_t) bytes.size() && ( !f.compr || r.blockDone() ), "the end of the domain table" );
   f.end = r.tell();
   // data
   size_t expectAt = dataStart;
   for( size_t i = 0; i < f.d.syms.size(); i++ )
   {
      Sym &y = f.d.syms[i];
      f.recHeader.push_back( 0 );
      if( y.type == GMS_DT_ALIAS ) continue;
      auto ctx = [&] { return "symbol " + y.name + ": "; };
      need( at[i] == (int64_t) expectAt, ctx() + "data at " + std::to_string( at[i] ) + " expected " + std::to_string( expectAt ) );
      r.seek( at[i], f.symCompr[i] );
      r.mark( "_DATA_" );
      need( r.num<uint8_t>() == y.dim, ctx() + "dimension in front of the data" );
      f.recHeader.back() = r.num<int32_t>();
      std::vector<int> lo( y.dim ), hi( y.dim ), w( y.dim );
      for( int k = 0; k < y.dim; k++ )
      {
         lo[k] = r.num<int32_t>();
         hi[k] = r.num<int32_t>();
         int64_t span = (int64_t) hi[k] - lo[k] + 1;
         w[k] = span <= 0 ? 4 : ( span <= 255 ? 1 : ( span <= 65535 ? 2 : 4 ) );
      }
      Key key( y.dim, 0 );
      bool first = true;
      while( true )
      {
         int c = r.num<uint8_t>();
         if( c == 255 ) break;
         if( y.dim == 0 ) need( c == 1 && first, ctx() + "code of a scalar record" );
         else if( c > y.dim )
         {
            need( !first, ctx() + "first record is relative" );
            key[y.dim - 1] += c - y.dim;
         }
         else
         {
            need( c >= 1 && ( !first || c == 1 ), ctx() + "first changed position " + std::to_string( c ) );
            Key old = key;
            for( int k = c - 1; k < y.dim; k++ )
            {
               int64_t v = w[k] == 1 ? r.num<uint8_t>() : ( w[k] == 2 ? r.num<uint16_t>() : r.num<int32_t>() );
               key[k] = int( v + lo[k] );
            }
            if( !first ) need( key[c - 1] > old[c - 1], ctx() + "keys are not ascending" );
         }
         for( int k = 0; k < y.dim; k++ ) need( key[k] >= lo[k] && key[k] <= hi[k], ctx() + "key outside of its announced range" );
         Rec rec;
         rec.k = key;
         for( int v = 0; v < nvals( y.type ); v++ )
         {
            int code = r.num<uint8_t>();
            need( code <= 10, ctx() + "value code " + std::to_string( code ) );
            rec.v[v] = code == 10 ? r.num<double>() : special( code );
         }
         y.recs.push_back( rec );
         first = false;
      }
      need( cnt[i] == (int) y.recs.size(), ctx() + "record count " + std::to_string( cnt[i] ) + " in the symbol table, records " + std::to_string( y.recs.size() ) );
      need( !f.symCompr[i] || r.blockDone(), ctx() + "data beyond the end code" );
      expectAt = r.tell();
   }
   need( (int64_t) expectAt == symb, "data ends at " + std::to_string( expectAt ) + ", tables start at " + std::to_string( symb ) );
   return f;
}

// ------------------------------------------------------------------ encoder
namespace
{
struct Enc {
   const EncCfg &e;
   uint64_t st;
   explicit Enc( const EncCfg &c ) : e { c }, st { c.rnd } {}
   uint64_t rnd() { return splitmix( st ); }
   bool chance( int a, int b ) { return (int) ( rnd() % b ) < a; }
   template<class T>
   void put( std::string &o, T v, bool swap )
   {
      char x[sizeof( T )];
      std::memcpy( x, &v, sizeof( T ) );
      if( swap ) std::reverse( x, x + sizeof( T ) );
      o.append( x, sizeof( T ) );
   }
   void by( std::string &o, int v ) { o.push_back( char( v ) ); }
   void wd( std::string &o, uint16_t v ) { put( o, v, e.swapW ); }
   void in( std::string &o, int32_t v ) { put( o, v, e.swapI ); }
   void i64( std::string &o, int64_t v ) { put( o, v, e.swapI ); }
   void db( std::string &o, double v ) { put( o, v, e.swapD ); }
   void st_( std::string &o, const std::string &v )
   {
      by( o, (int) v.size() );
      o += v;
   }
   std::string pack( const std::string &x, bool compress_ )
   {
      if( !compress_ ) return x;
      std::string o;
      size_t p = 0;
      while( p < x.size() )
      {
         size_t n = std::min<size_t>( 32768, x.size() - p );
         int typ = 1, level = -1;
         if( e.blocks )
         {
            switch( rnd() % 4 )
            {
               case 0: n = std::min<size_t>( n, 1 + rnd() % 7 ); break;
               case 1: n = std::min<size_t>( n, 1 + rnd() % 300 ); break;
               default: n = std::min<size_t>( n, 1 + rnd() % 32768 ); break;
            }
            typ = rnd() % 2;
            level = int( rnd() % 10 );
         }
         std::string z( compressBound( n ), 0 );
         uLongf zl = z.size();
         compress2( (Bytef *) &z[0], &zl, (const Bytef *) &x[p], n, level );
         if( !e.blocks && zl >= n ) typ = 0;
         std::string data = typ ? z.substr( 0, zl ) : x.substr( p, n );
         by( o, typ );
         by( o, int( data.size() >> 8 ) );
         by( o, int( data.size() & 255 ) );
         o += data;
         p += n;
      }
      return o;
   }
   void gap( std::string &o )
   {
      if( !e.gaps || !chance( 1, 2 ) ) return;
      for( int n = int( rnd() % 40 ); n > 0; n-- ) by( o, int( rnd() & 255 ) );
   }
};
}// namespace

std::string encodeFile( const FileDoc &f, const EncCfg &e )
{
   Enc q( e );
   std::string o;
   q.by( o, 2 );
   q.wd( o, 0x1234 );
   q.by( o, 4 );
   q.in( o, 0x12345678 );
   q.by( o, 8 );
   q.db( o, 3.141592653589793238462643 );
   q.by( o, 123 );
   q.st_( o, "GAMSGDX" );
   q.in( o, e.version );
   if( e.version > 5 ) q.in( o, e.compr );
   q.st_( o, e.audit );
   q.st_( o, e.producer );
   size_t index = o.size();
   o.append( 80, 0 );
   auto &d = f.d;
   int ns = (int) d.syms.size();
   std::vector<int64_t> at( ns, 0 );
   std::vector<int> order( ns );
   for( int i = 0; i < ns; i++ ) order[i] = i;
   if( e.shuffleSections )
      for( int i = ns; i > 1; i-- ) std::swap( order[i - 1], order[q.rnd() % i] );
   int delta = 0;
   for( int i: order )
   {
      const Sym &y = d.syms[i];
      if( y.type == GMS_DT_ALIAS ) continue;
      q.gap( o );
      at[i] = (int64_t) o.size();
      std::string x;
      q.st_( x, "_DATA_" );
      q.by( x, y.dim );
      q.in( x, q.chance( 1, 2 ) ? (int) y.recs.size() : -1 );
      std::vector<int> lo( y.dim ), hi( y.dim ), w( y.dim );
      for( int k = 0; k < y.dim; k++ )
      {
         lo[k] = 1 << 30;
         hi[k] = 1;
         for( auto &r: y.recs ) lo[k] = std::min( lo[k], r.k[k] ), hi[k] = std::max( hi[k], r.k[k] );
         if( y.recs.empty() ) lo[k] = q.chance( 1, 2 ) ? 1 : std::numeric_limits<int>::max(), hi[k] = 0;
         else
            switch( q.rnd() % 6 )
            {
               case 0: lo[k] = 1; break;
               case 1: hi[k] = std::numeric_limits<int>::max(); break;
               case 2: lo[k] = 1, hi[k] = std::numeric_limits<int>::max(); break;
               case 3: hi[k] = std::max( hi[k], lo[k] + 253 + int( q.rnd() % 4 ) ); break;
               case 4: hi[k] = std::max( hi[k], lo[k] + 65533 + int( q.rnd() % 4 ) ); break;
               default: break;
            }
         q.in( x, lo[k] );
         q.in( x, hi[k] );
         int64_t span = (int64_t) hi[k] - lo[k] + 1;
         w[k] = span <= 0 ? 4 : ( span <= 255 ? 1 : ( span <= 65535 ? 2 : 4 ) );
      }
      delta = e.version <= 6 ? 10 : y.dim;
      const Rec *prev = nullptr;
      for( auto &r: y.recs )
      {
         int fd = 1;
         if( prev )
            while( fd <= y.dim && r.k[fd - 1] == prev->k[fd - 1] ) fd++;
         if( !y.dim ) q.by( x, 1 );
         else if( prev && fd == y.dim && r.k[y.dim - 1] - prev->k[y.dim - 1] <= 254 - delta && !q.chance( 1, 6 ) )
            q.by( x, delta + r.k[y.dim - 1] - prev->k[y.dim - 1] );
         else
         {
            q.by( x, fd );
            for( int k = fd - 1; k < y.dim; k++ )
            {
               int v = r.k[k] - lo[k];
               if( w[k] == 1 ) q.by( x, v );
               else if( w[k] == 2 )
                  q.wd( x, (uint16_t) v );
               else
                  q.in( x, v );
            }
         }
         for( int v = 0; v < nvals( y.type ); v++ )
         {
            double z = canonical( r.v[v] );
            int code = 10;
            for( int k = 0; k < 10; k++ )
               if( bitsOf( special( k ) ) == bitsOf( z ) && ( k < 5 || !q.chance( 1, 4 ) ) ) code = k;
            q.by( x, code );
            if( code == 10 ) q.db( x, z );
         }
         prev = &r;
      }
      q.by( x, 255 );
      o += q.pack( x, e.version > 5 && e.symCompr[i] );
   }
   q.gap( o );
   int64_t next = (int64_t) o.size();
   std::map<std::string, int> domNr;
   std::vector<std::string> domNames;
   std::string secs[5];// symbols, texts, labels, acronyms, domains
   {
      std::string &x = secs[0];
      q.st_( x, "_SYMB_" );
      q.in( x, ns );
      for( int i = 0; i < ns; i++ )
      {
         const Sym &y = d.syms[i];
         q.st_( x, y.name );
         if( e.version <= 5 ) q.in( x, (int) at[i] );
         else
            q.i64( x, at[i] );
         q.in( x, y.dim );
         q.by( x, y.type );
         q.in( x, y.user );
         q.in( x, (int) y.recs.size() );
         q.in( x, y.errors );
         q.by( x, f.hasText[i] );
         q.st_( x, y.expl );
         if( e.version > 5 ) q.by( x, e.symCompr[i] && y.type != GMS_DT_ALIAS ? 1 : 0 );
         if( e.version < 7 ) continue;
         if( y.domKind == 3 )
         {
            q.by( x, 1 );
            for( auto &n: y.dom ) q.in( x, n == "*" ? 0 : d.findSym( n ) );
         }
         else
            q.by( x, 0 );
         q.in( x, (int) y.comments.size() );
         for( auto &t: y.comments ) q.st_( x, t );
      }
      q.st_( x, "_SYMB_" );
   }
   {
      std::string &x = secs[1];
      q.st_( x, "_SETT_" );
      q.in( x, (int) f.fileTexts.size() );
      for( auto &t: f.fileTexts ) q.st_( x, t );
      q.st_( x, "_SETT_" );
   }
   {
      std::string &x = secs[2];
      q.st_( x, "_UEL_" );
      // files of 2001 count one label too many
      q.in( x, (int) d.uels.size() + ( e.audit.size() >= 19 && e.audit.substr( 15, 4 ) == "2001" ? 1 : 0 ) );
      for( auto &t: d.uels ) q.st_( x, t );
      q.st_( x, "_UEL_" );
   }
   {
      std::string &x = secs[3];
      q.st_( x, "_ACRO_" );
      q.in( x, (int) f.acrs.size() );
      for( auto &a: f.acrs )
      {
         q.st_( x, a.name );
         q.st_( x, a.text );
         q.in( x, a.idx );
      }
      q.st_( x, "_ACRO_" );
   }
   {
      std::string &x = secs[4], ref;
      for( int i = 0; i < ns; i++ )
      {
         const Sym &y = d.syms[i];
         if( y.domKind != 2 ) continue;
         q.in( ref, i + 1 );
         for( auto &n: y.dom )
         {
            int nr = 0;
            if( n != "*" )
            {
               auto it = domNr.emplace( upper( n ), (int) domNames.size() + 1 );
               if( it.second ) domNames.push_back( n );
               nr = it.first->second;
            }
            q.in( ref, nr );
         }
      }
      q.st_( x, "_DOMS_" );
      q.in( x, (int) domNames.size() );
      for( auto &n: domNames ) q.st_( x, n );
      q.st_( x, "_DOMS_" );
      x += ref;
      q.in( x, -1 );
      q.st_( x, "_DOMS_" );
   }
   int so[5] = { 0, 1, 2, 3, 4 };
   if( e.shuffleSections )
      for( int i = 5; i > 1; i-- ) std::swap( so[i - 1], so[q.rnd() % i] );
   int64_t pos[5] {};
   for( int i: so )
   {
      if( e.version < 7 && i >= 3 ) continue;
      q.gap( o );
      pos[i] = (int64_t) o.size();
      o += q.pack( secs[i], e.version > 5 && e.compr );
   }
   q.gap( o );
   std::string ix;
   q.in( ix, 19510624 );
   if( e.version <= 5 )
   {
      q.in( ix, (int) pos[0] );
      q.in( ix, (int) pos[2] );
      q.in( ix, (int) pos[1] );
      q.in( ix, (int) next );
   }
   else
   {
      q.i64( ix, pos[0] );
      q.i64( ix, pos[2] );
      q.i64( ix, pos[1] );
      if( e.version >= 7 )
      {
         q.i64( ix, pos[3] );
         q.i64( ix, next );
         q.i64( ix, pos[4] );
      }
   }
   o.replace( index, ix.size(), ix );
   return o;
}
}// namespace vp
