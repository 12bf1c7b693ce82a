// C24: histories of typed and raw reads, writes and seeks on the streams against a byte array.
#include "core.hpp"

#include "gdlib/gmsstrm.hpp"
#include "gclgms.h"
#include <cmath>
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

using namespace vp;
using namespace gdlib::gmsstrm;
using Bytes = std::vector<uint8_t>;

namespace
{
constexpr int BUF = 32 * 1024;

Bytes slurp( const std::string &fn )
{
   Bytes r;
   if( FILE *f = fopen( fn.c_str(), "rb" ) )
   {
      uint8_t b[65536];
      size_t n;
      while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.insert( r.end(), b, b + n );
      fclose( f );
   }
   return r;
}
void spit( const std::string &fn, const Bytes &b )
{
   FILE *f = fopen( fn.c_str(), "wb" );
   fwrite( b.data(), 1, b.size(), f );
   fclose( f );
}
// lengths around the buffer size are frequent
int genLen( Src &s )
{
   switch( s.weighted( { 8, 4, 3, 2, 1 } ) )
   {
      case 0: return s.range( 0, 12 );
      case 1: return s.range( 0, 600 );
      case 2: return BUF + s.range( -20, 20 );
      case 3: return s.range( 0, BUF );
      default: return s.range( 2 * BUF - 10, 3 * BUF + 10 );
   }
}
// compressible or random bytes from two choices
Bytes genBytes( Src &s, int n )
{
   Bytes r( n );
   const int kind = s.range( 0, 2 );
   uint64_t st = s.range( 0, 65535 );
   for( int i {}; i < n; i++ ) r[i] = kind == 0 ? static_cast<uint8_t>( st + i / 7 ) : kind == 1 ? static_cast<uint8_t>( "abc\n"[( st + i ) & 3] )
                                                                                                 : static_cast<uint8_t>( splitmix( st ) );
   return r;
}
double genDouble( Src &s )
{
   switch( s.weighted( { 4, 3, 3, 2, 2 } ) )
   {
      case 0: return s.range( -3, 3 );
      case 1: return s.range( -1000000, 1000000 ) / 64.0;
      case 2:
      {
         uint64_t b = s.bits64();
         double d;
         memcpy( &d, &b, 8 );
         return std::isfinite( d ) ? d : 0.1;
      }
      case 3: return std::ldexp( 1.0, s.range( -1074, 990 ) ) * ( s.flip() ? -1 : 1 );
      default: return s.range( 0, 999 ) * 0.1;
   }
}
int genInt( Src &s )
{
   switch( s.weighted( { 4, 2, 3, 2 } ) )
   {
      case 0: return s.range( -20, 20 );
      case 1: return s.range( -70000, 70000 );
      case 2:
      {
         const int k = s.range( 0, 31 );
         const int64_t v = ( int64_t { 1 } << k ) + s.range( -1, 1 );
         return static_cast<int>( s.flip() ? -v : std::min<int64_t>( v, 2147483647 ) );
      }
      default: return static_cast<int>( s.bits32() );
   }
}

struct Model {
   Bytes d;
   int64_t pos {};
   void write( const void *p, size_t n )
   {
      if( !n ) return;
      if( pos + (int64_t) n > (int64_t) d.size() ) d.resize( pos + n );
      memcpy( &d[pos], p, n );
      pos += n;
   }
   Bytes read( size_t n )
   {
      const int64_t av = std::max<int64_t>( 0, std::min<int64_t>( n, (int64_t) d.size() - pos ) );
      Bytes r;
      if( av > 0 ) r.assign( d.begin() + pos, d.begin() + pos + av );
      pos += av;
      return r;
   }
   template<typename T>
   T readT()
   {
      T t {};
      auto b = read( sizeof( T ) );
      memcpy( &t, b.data(), b.size() );
      return t;
   }
};

std::string showBytes( const Bytes &b, size_t n = 12 )
{
   std::string r;
   char t[4];
   for( size_t i {}; i < b.size() && i < n; i++ )
   {
      snprintf( t, sizeof t, "%02x", b[i] );
      r += t;
   }
   return r + "(" + std::to_string( b.size() ) + ")";
}

// one typed write on stream and model
void typedWrite( Src &s, Ctx &c, TXStream &f, Model &m )
{
   switch( s.range( 0, 7 ) )
   {
      case 0:
      {
         uint8_t v = static_cast<uint8_t>( s.range( 0, 255 ) );
         c.log( "WriteByte ", (int) v );
         f.WriteByte( v );
         m.write( &v, 1 );
         break;
      }
      case 1:
      {
         uint16_t v = static_cast<uint16_t>( s.range( 0, 65535 ) );
         c.log( "WriteWord ", v );
         f.WriteWord( v );
         m.write( &v, 2 );
         break;
      }
      case 2:
      {
         int v = genInt( s );
         c.log( "WriteInteger ", v );
         f.WriteInteger( v );
         m.write( &v, 4 );
         break;
      }
      case 3:
      {
         int64_t v = static_cast<int64_t>( s.bits64() );
         c.log( "WriteInt64 ", v );
         f.WriteInt64( v );
         m.write( &v, 8 );
         break;
      }
      case 4:
      {
         double v = genDouble( s );
         c.log( "WriteDouble ", hexd( v ) );
         f.WriteDouble( v );
         m.write( &v, 8 );
         break;
      }
      case 5:
      {
         auto b = genBytes( s, s.chance( 1, 4 ) ? s.range( 200, 300 ) : s.range( 0, 40 ) );
         std::string t( b.begin(), b.end() );
         c.log( "WriteString of ", t.size() );
         f.WriteString( std::string_view { t } );
         if( t.size() > 255 ) t.resize( 255 );
         uint8_t n = static_cast<uint8_t>( t.size() );
         m.write( &n, 1 );
         m.write( t.data(), n );
         break;
      }
      case 6:
      {
         if( s.flip() )
         {
            bool v = s.flip();
            c.log( "WriteBool ", v );
            f.WriteBool( v );
            m.write( &v, 1 );
         }
         else
         {
            char v = static_cast<char>( s.range( 0, 255 ) );
            c.log( "WriteChar ", (int) v );
            f.WriteChar( v );
            m.write( &v, 1 );
         }
         break;
      }
      case 7:
      {
         auto b = genBytes( s, s.range( 0, 500 ) );
         int n = static_cast<int>( b.size() );
         c.log( "WritePChar of ", n );
         f.WritePChar( reinterpret_cast<const char *>( b.data() ), n );
         m.write( &n, 4 );
         m.write( b.data(), b.size() );
         break;
      }
   }
}

void typedRead( Src &s, Ctx &c, TXStream &f, Model &m )
{
   switch( s.range( 0, 6 ) )
   {
      case 0:
      {
         const auto g = f.ReadByte(), e = m.readT<uint8_t>();
         c.check( g == e, "ReadByte = ", (int) g, " expected ", (int) e );
         break;
      }
      case 1:
      {
         const auto g = f.ReadWord(), e = m.readT<uint16_t>();
         c.check( g == e, "ReadWord = ", g, " expected ", e );
         break;
      }
      case 2:
      {
         const auto g = f.ReadInteger(), e = m.readT<int>();
         c.check( g == e, "ReadInteger = ", g, " expected ", e );
         break;
      }
      case 3:
      {
         const auto g = f.ReadInt64(), e = m.readT<int64_t>();
         c.check( g == e, "ReadInt64 = ", g, " expected ", e );
         break;
      }
      case 4:
      {
         const auto g = f.ReadDouble(), e = m.readT<double>();
         c.check( !memcmp( &g, &e, 8 ), "ReadDouble = ", hexd( g ), " expected ", hexd( e ) );
         break;
      }
      case 5:
      {
         const int n = m.readT<uint8_t>();
         auto e = m.read( n );
         if( s.flip() )
         {
            auto g = f.ReadString();
            c.check( Bytes( g.begin(), g.end() ) == e, "ReadString of ", g.size(), " expected ", e.size() );
         }
         else
         {
            char b[256];
            uint8_t l { 77 };
            memset( b, 0x55, sizeof b );
            f.ReadSString( b, l );
            c.check( l == e.size() && !memcmp( b, e.data(), l ) && !b[l], "ReadSString of ", (int) l, " expected ", e.size() );
         }
         break;
      }
      case 6:
      {
         const auto g = f.ReadChar();
         const auto e = m.readT<char>();
         c.check( g == e, "ReadChar" );
         break;
      }
   }
}

std::string genPass( Src &s )
{
   static const char al[] = "abz09 $Q~";
   std::string p;
   const int n = s.chance( 1, 6 ) ? s.range( 13, 300 ) : s.range( 1, 12 );
   for( int i {}; i < n; i++ ) p += s.chance( 1, 4 ) ? static_cast<char>( s.range( 33, 126 ) ) : al[s.range( 0, 8 )];
   return p;
}
}// namespace

// ------------------------------------------------------------------ random access, one file, several sessions
VP_PROP( C24, history, "both written and read back, with a seek or a second session in between", 21000, 70000 )
{
   const auto fn = c.path( "s" );
   unlink( fn.c_str() );
   Model m;
   const std::string pass = s.chance( 1, 5 ) ? genPass( s ) : "";
   int wr {}, rd {}, seeks {}, cross {};
   const int sessions = s.range( 1, 3 );
   for( int se {}; se < sessions; se++ )
   {
      // the first session creates the file, later ones update or only read it
      const bool ro = se > 0 && s.chance( 1, 3 );
      const uint16_t mode = se == 0 ? fmCreate : ro ? fmOpenRead : fmOpenReadWrite;
      const bool canRead = se > 0;
      c.log( "open mode ", mode );
      {
         TBufferedFileStream f { fn, mode };
         c.check( f.GetLastIOResult() == 0, "open" );
         if( !pass.empty() ) f.SetPassWord( pass );
         c.check( f.GetUsesPassWord() == !pass.empty() && f.GetFileName() == fn, "password or name" );
         if( se == 0 )
            m = {};
         m.pos = 0;
         const int nops = s.range( 1, 25 );
         for( int o {}; o < nops; o++ )
         {
            const int wWr = ro ? 0 : 5, wRd = canRead ? 5 : 0;
            switch( s.weighted( { 1, wWr, wWr, wRd, wRd, 4, 1, 1 } ) )
            {
               case 0:
                  if( ro ) break;
                  f.FlushBuffer();
                  c.log( "FlushBuffer" );
                  break;
               case 1:
               {
                  auto b = genBytes( s, genLen( s ) );
                  c.log( "Write ", b.size(), " at ", m.pos );
                  c.check( f.Write( b.data(), static_cast<uint32_t>( b.size() ) ) == b.size(), "Write result" );
                  m.write( b.data(), b.size() );
                  wr += !b.empty();
                  cross += b.size() > BUF;
                  break;
               }
               case 2:
                  typedWrite( s, c, f, m );
                  wr++;
                  break;
               case 3:
               {
                  const int n = genLen( s );
                  Bytes b( n + 1, 0xEE );
                  c.log( "Read ", n, " at ", m.pos );
                  const auto g = f.Read( b.data(), n );
                  auto e = m.read( n );
                  c.check( g == e.size(), "Read(", n, ") returned ", g, " expected ", e.size() );
                  b.resize( g );
                  c.check( b == e, "Read(", n, ") delivered ", showBytes( b ), " expected ", showBytes( e ) );
                  rd += g > 0;
                  break;
               }
               case 4:
                  c.log( "typed read at ", m.pos );
                  typedRead( s, c, f, m );
                  rd++;
                  break;
               case 5:
               {
                  const int64_t sz = static_cast<int64_t>( m.d.size() );
                  int64_t p = s.chance( 1, 4 ) ? std::max<int64_t>( 0, m.pos + s.range( -10, 10 ) ) : s.chance( 1, 6 ) ? sz : s.range( 0, static_cast<int>( sz ) );
                  p = std::min( p, sz );
                  c.log( "SetPosition ", p );
                  f.SetPosition( p );
                  m.pos = p;
                  seeks++;
                  break;
               }
               case 6:
                  c.check( f.GetSize() == (int64_t) m.d.size(), "GetSize = ", f.GetSize(), " expected ", m.d.size() );
                  c.check( f.IsEof() == ( m.pos >= (int64_t) m.d.size() ), "IsEof = ", f.IsEof(), " at ", m.pos, " of ", m.d.size() );
                  break;
               case 7:
               {
                  if( !canRead ) break;
                  c.log( "ReadCharacter at ", m.pos );
                  const bool end = m.pos >= (int64_t) m.d.size();
                  const auto g = f.ReadCharacter();
                  const auto e = m.readT<char>();
                  c.check( g == ( end ? '\x1a' : e ), "ReadCharacter" );
                  break;
               }
            }
            c.check( f.GetPosition() == m.pos, "GetPosition = ", f.GetPosition(), " expected ", m.pos );
         }
         c.check( f.GetLastIOResult() == 0, "an error is reported although none happened" );
      }
      struct stat sb {};
      stat( fn.c_str(), &sb );
      c.check( sb.st_size == (int64_t) m.d.size(), "file has ", sb.st_size, " bytes, expected ", m.d.size() );
      if( pass.empty() )
         c.check( slurp( fn ) == m.d, "file content differs from what was written" );
   }
   if( sessions == 1 || rd == 0 )
   {// read it all back
      TBufferedFileStream f { fn, fmOpenRead };
      if( !pass.empty() ) f.SetPassWord( pass );
      Bytes b( m.d.size() + 1 );
      c.check( f.Read( b.data(), static_cast<uint32_t>( b.size() ) ) == m.d.size(), "final read" );
      b.resize( m.d.size() );
      c.check( b == m.d, "read back content differs" );
      c.check( f.IsEof(), "not at the end" );
      rd++;
   }
   if( cross ) c.label( "larger than the buffer" );
   if( !pass.empty() ) c.label( "password" );
   c.nontrivial = wr > 0 && rd > 0 && ( seeks > 0 || sessions > 1 );
   c.desc = std::to_string( sessions ) + " sessions, " + std::to_string( m.d.size() ) + " bytes, " + std::to_string( wr ) + " writes, " + std::to_string( rd ) + " reads, " + std::to_string( seeks ) + " seeks";
}

// ------------------------------------------------------------------ unbuffered stream
VP_PROP( C24, unbuffered, "at least 2 values written and read back", 9000, 30000 )
{
   const auto fn = c.path( "u" );
   unlink( fn.c_str() );
   const std::string pass = s.chance( 1, 3 ) ? genPass( s ) : "";
   Model m;
   const int n = s.range( 0, 12 );
   {
      TXFileStream f { fn, fmCreate };
      c.check( f.GetLastIOResult() == 0, "create" );
      if( !pass.empty() ) f.SetPassWord( pass );
      for( int i {}; i < n; i++ )
         if( s.flip() ) typedWrite( s, c, f, m );
         else
         {
            auto b = genBytes( s, genLen( s ) );
            c.check( f.Write( b.data(), static_cast<uint32_t>( b.size() ) ) == b.size(), "Write" );
            m.write( b.data(), b.size() );
         }
      c.check( f.GetLastIOResult() == 0, "error reported" );
   }
   m.pos = 0;
   TXFileStream f { fn, fmOpenRead };
   if( !pass.empty() ) f.SetPassWord( pass );
   int reads {};
   while( m.pos < (int64_t) m.d.size() )
   {
      if( s.flip() ) typedRead( s, c, f, m );
      else
      {
         const int k = genLen( s ) + 1;
         Bytes b( k );
         const auto g = f.Read( b.data(), k );
         auto e = m.read( k );
         b.resize( std::min<size_t>( g, k ) );
         c.check( g == e.size() && b == e, "Read(", k, ") delivered ", showBytes( b ), " expected ", showBytes( e ) );
      }
      reads++;
   }
   char x;
   c.check( f.Read( &x, 1 ) == 0, "data past the end" );
   c.check( f.GetLastIOResult() == 0, "error reported" );
   c.nontrivial = n >= 2 && reads >= 2;
   c.desc = std::to_string( m.d.size() ) + " bytes" + ( pass.empty() ? "" : ", password" );
}

// ------------------------------------------------------------------ sections, some compressed
VP_PROP( C24, sections, "a compressed section of more than 100 bytes and 2 or more sections", 10500, 35000 )
{
   const auto fn = c.path( "z" );
   unlink( fn.c_str() );
   struct Sec {
      bool comp;
      int64_t start;
      Model m;
      std::vector<std::pair<int, double>> gms;
   };
   std::vector<Sec> secs;
   const std::string pass = s.chance( 1, 8 ) ? genPass( s ) : "";
   int64_t end;
   {
      TMiBufferedStream f { fn, fmCreate };
      if( !pass.empty() )
      {
         f.FlushBuffer();
         f.SetPassWord( pass );
      }
      const int n = s.range( 1, 5 );
      for( int i {}; i < n; i++ )
      {
         Sec x;
         x.comp = s.flip();
         f.SetCompression( x.comp );
         c.check( f.GetCompression() == x.comp, "GetCompression" );
         x.start = f.GetPosition();
         const int k = s.range( 0, 8 );
         for( int j {}; j < k; j++ )
            if( s.flip() ) typedWrite( s, c, f, x.m );
            else
            {
               auto b = genBytes( s, genLen( s ) );
               c.check( f.Write( b.data(), static_cast<uint32_t>( b.size() ) ) == b.size(), "Write" );
               x.m.write( b.data(), b.size() );
            }
         secs.push_back( std::move( x ) );
      }
      f.SetCompression( false );
      end = f.GetPosition();
      c.check( f.GetSize() == end, "GetSize" );
      c.check( f.GetLastIOResult() == 0, "error reported" );
   }
   struct stat sb {};
   stat( fn.c_str(), &sb );
   c.check( sb.st_size == end, "file size ", sb.st_size, " expected ", end );
   TMiBufferedStream f { fn, fmOpenRead };
   c.check( f.GetLastIOResult() == 0 && f.GoodByteOrder() == 0, "open" );
   c.check( !f.WordsNeedFlip() && !f.IntsNeedFlip() && !f.DoublesNeedFlip(), "byte order" );
   if( !pass.empty() ) f.SetPassWord( pass );
   bool big {};
   std::vector<int> order;
   for( int i {}; i < (int) secs.size(); i++ ) order.push_back( i );
   for( int i = (int) order.size() - 1; i > 0; i-- ) std::swap( order[i], order[s.range( 0, i )] );
   // with a password, start afresh from the first section so that nothing was buffered before it was set
   for( int i: order )
   {
      auto &x = secs[i];
      big |= x.comp && x.m.d.size() > 100;
      if( x.m.d.empty() ) continue;
      f.SetCompression( x.comp );
      f.SetPosition( 0 );// leaves the buffered part
      f.SetPosition( x.start );
      if( !pass.empty() && !x.comp )
      {
         f.SetCompression( true );
         f.SetPosition( x.start );
         f.SetCompression( false );
      }
      x.m.pos = 0;
      int k {};
      while( x.m.pos < (int64_t) x.m.d.size() && k++ < 200 )
      {
         const int64_t left = (int64_t) x.m.d.size() - x.m.pos;
         if( left >= 300 && s.flip() ) typedRead( s, c, f, x.m );
         else
         {
            const int n = static_cast<int>( std::min<int64_t>( left, genLen( s ) + 1 ) );
            Bytes b( n );
            const auto g = f.Read( b.data(), n );
            auto e = x.m.read( n );
            b.resize( std::min<size_t>( g, n ) );
            c.check( g == e.size() && b == e, "section ", i, x.comp ? " (compressed)" : "", " at ", x.m.pos - (int64_t) e.size(), ": Read(", n, ") delivered ", showBytes( b ), " expected ", showBytes( e ) );
         }
      }
   }
   c.nontrivial = big && secs.size() >= 2;
   c.desc = std::to_string( secs.size() ) + " sections, " + std::to_string( end ) + " bytes in the file" + ( pass.empty() ? "" : ", password" );
}

// ------------------------------------------------------------------ compact numbers
VP_PROP( C24, compact, "a number needing more than one byte and a non-integer double", 18000, 60000 )
{
   const auto fn = c.path( "g" );
   unlink( fn.c_str() );
   std::vector<std::pair<int, double>> v;// kind 0 integer 1 double
   const int n = s.range( 1, 30 );
   bool bigI {}, frac {};
   for( int i {}; i < n; i++ )
      if( s.flip() )
      {
         v.emplace_back( 0, genInt( s ) );
         bigI |= std::abs( v.back().second ) > 15;
      }
      else
      {
         double d;
         switch( s.weighted( { 6, 2, 2 } ) )
         {
            case 0:
               d = genDouble( s );
               if( d >= 1e300 ) d = 0.3;
               break;
            case 1:
            {
               static const double sv[] = { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS };
               d = sv[s.range( 0, 4 )];
               break;
            }
            default: d = GMS_SV_ACR * s.range( 1, s.flip() ? 5 : 1000000 ); break;
         }
         v.emplace_back( 1, d );
         frac |= d != std::floor( d );
      }
   const bool comp = s.flip();
   {
      TMiBufferedStream f { fn, fmCreate };
      if( comp ) f.SetCompression( true );
      if( s.chance( 1, 4 ) )
      {// shift across the buffer boundary
         Bytes b( BUF - s.range( 0, 60 ) );
         v.insert( v.begin(), { 2, (double) b.size() } );
         f.Write( b.data(), static_cast<uint32_t>( b.size() ) );
      }
      for( auto &[k, x]: v )
         if( k == 0 ) f.WriteGmsInteger( static_cast<int>( x ) );
         else if( k == 1 )
            f.WriteGmsDouble( x );
   }
   TMiBufferedStream f { fn, fmOpenRead };
   if( comp )
   {
      const auto p = f.GetPosition();
      f.SetCompression( true );
      f.SetPosition( p );
   }
   for( size_t i {}; i < v.size(); i++ )
   {
      auto [k, x] = v[i];
      if( k == 2 )
      {
         Bytes b( static_cast<size_t>( x ) );
         f.Read( b.data(), static_cast<uint32_t>( b.size() ) );
      }
      else if( k == 0 )
      {
         const int g = f.ReadGmsInteger();
         c.check( g == static_cast<int>( x ), "integer ", i, ": ", static_cast<int>( x ), " came back as ", g );
      }
      else
      {
         const double g = f.ReadGmsDouble();
         c.check( g == x, "double ", i, ": ", hexd( x ), " came back as ", hexd( g ) );
      }
   }
   c.nontrivial = bigI && frac;
   c.desc = std::to_string( v.size() ) + " compact numbers";
}

// ------------------------------------------------------------------ files from machines of the other byte order
VP_PROP( C24, byteorder, "some pattern swapped and 3 or more values read", 12000, 40000 )
{
   Bytes b;
   const int ow = s.weighted( { 3, 3, 1, 1 } ), oi = s.weighted( { 3, 3, 1, 1 } ), od = s.weighted( { 3, 3, 1, 1 } );// 0 native 1 swapped 2 bad pattern 3 other size
   auto put = [&]( const void *p, int n, bool swap ) {
      Bytes t( n );
      memcpy( t.data(), p, n );
      if( swap ) std::reverse( t.begin(), t.end() );
      b.insert( b.end(), t.begin(), t.end() );
   };
   auto head = [&]( const void *p, int n, int kind ) {
      const int sz = kind == 3 ? n + s.range( 1, 4 ) : n;
      b.push_back( static_cast<uint8_t>( sz ) );
      if( kind == 3 ) b.insert( b.end(), sz, 0x11 );
      else if( kind == 2 )
         b.insert( b.end(), n, 0x77 );
      else
         put( p, n, kind == 1 );
   };
   const uint16_t W = 0x1234;
   const int I = 0x12345678;
   const double D = 3.1415926535897932385;
   head( &W, 2, ow );
   head( &I, 4, oi );
   head( &D, 8, od );
   const int good = ( ow == 3 ? 1 : ow == 2 ? 2 : 0 ) + ( oi == 3 ? 4 : oi == 2 ? 8 : 0 ) + ( od == 3 ? 16 : od == 2 ? 32 : 0 );
   struct V {
      int k;
      uint64_t x;
   };
   std::vector<V> v;
   const int n = s.range( 0, 20 );
   for( int i {}; i < n; i++ )
   {
      V e { s.range( 0, 4 ), 0 };
      switch( e.k )
      {
         case 0:
         {
            uint16_t w = static_cast<uint16_t>( e.x = s.range( 0, 65535 ) );
            put( &w, 2, ow );
            break;
         }
         case 1:
         {
            int w = genInt( s );
            e.x = static_cast<uint64_t>( static_cast<int64_t>( w ) );
            put( &w, 4, oi );
            break;
         }
         case 2:
            e.x = s.bits64();
            put( &e.x, 8, oi );
            break;
         case 3:
         {
            double d = genDouble( s );
            memcpy( &e.x, &d, 8 );
            put( &d, 8, od );
            break;
         }
         case 4:
            e.x = s.range( 0, 255 );
            b.push_back( static_cast<uint8_t>( e.x ) );
            break;
      }
      v.push_back( e );
   }
   const auto fn = c.path( "bo" );
   spit( fn, b );
   TMiBufferedStream f { fn, fmOpenRead };
   c.check( f.GetLastIOResult() == 0, "open" );
   c.check( f.GoodByteOrder() == good, "GoodByteOrder = ", f.GoodByteOrder(), " expected ", good );
   if( !good )
   {
      c.check( f.WordsNeedFlip() == ( ow == 1 ) && f.IntsNeedFlip() == ( oi == 1 ) && f.DoublesNeedFlip() == ( od == 1 ), "flip flags" );
      for( size_t i {}; i < v.size(); i++ )
      {
         const auto &e = v[i];
         uint64_t g {};
         switch( e.k )
         {
            case 0: g = f.ReadWord(); break;
            case 1: g = static_cast<uint64_t>( static_cast<int64_t>( f.ReadInteger() ) ); break;
            case 2: g = static_cast<uint64_t>( f.ReadInt64() ); break;
            case 3:
            {
               double d = f.ReadDouble();
               memcpy( &g, &d, 8 );
               break;
            }
            case 4: g = f.ReadByte(); break;
         }
         c.check( g == e.x, "value ", i, " of kind ", e.k, " = ", g, " expected ", e.x );
      }
      c.check( f.IsEof(), "not at the end" );
   }
   c.nontrivial = !good && ( ow || oi || od ) && n >= 3;
   c.desc = "patterns " + std::to_string( ow ) + std::to_string( oi ) + std::to_string( od ) + ", " + std::to_string( n ) + " values";
}

// ------------------------------------------------------------------ text files
namespace
{
Bytes genText( Src &s )
{
   Bytes r;
   const int parts = s.range( 0, 12 );
   for( int i {}; i < parts; i++ )
   {
      switch( s.weighted( { 6, 3, 2, 1, 1 } ) )
      {
         case 0:
         {
            const int n = s.range( 0, 30 );
            for( int j {}; j < n; j++ ) r.push_back( static_cast<uint8_t>( s.range( 32, 126 ) ) );
            r.push_back( '\n' );
            break;
         }
         case 1: r.push_back( '\r' ); r.push_back( '\n' ); break;
         case 2:
         {
            const int n = s.range( 0, 300 ), ch = s.range( 97, 122 );
            r.insert( r.end(), n, static_cast<uint8_t>( ch ) );
            break;
         }
         case 3:
         {
            const int n = BUF + s.range( -300, 300 );
            uint64_t st = s.range( 0, 999 );
            for( int j {}; j < n; j++ ) r.push_back( static_cast<uint8_t>( splitmix( st ) % 60 < 1 ? '\n' : 32 + splitmix( st ) % 95 ) );
            break;
         }
         case 4: r.insert( r.end(), { 0xc3, 0xa9, '\n' } ); break;
      }
   }
   return r;
}

// read by lines, as a consumer of the text would, through one of the three overloads
struct LineReader {
   TBinaryTextFileIO &io;
   int kind;
   std::string get( int maxInp, char &last, Ctx &c )
   {
      int len { -5 };
      if( kind == 0 )
      {
         std::string t { "old" };
         io.ReadLine( t, len, maxInp, last );
         c.check( len == (int) t.size(), "Len" );
         return t;
      }
      if( kind == 1 )
      {
         Bytes t { 1, 2 };
         io.ReadLine( t, len, maxInp, last );
         c.check( len == (int) t.size(), "Len" );
         return { t.begin(), t.end() };
      }
      std::unique_ptr<char[]> t { new char[maxInp + 1] };
      io.ReadLine( t.get(), len, maxInp, last );
      c.check( len >= 0 && len <= maxInp, "Len ", len );
      return { t.get(), t.get() + len };
   }
};

void readText( Src &s, Ctx &c, TBinaryTextFileIO &io, const Bytes &all, bool gz )
{
   size_t pos {};
   const int modes = s.range( 1, 3 );
   char last {};
   bool primed {};
   for( int ph {}; ph < modes; ph++ )
   {
      const int how = s.range( 0, 2 );
      const int steps = ph == modes - 1 ? 1000000 : s.range( 0, 6 );
      const int ov = s.range( 0, 2 );
      for( int st {}; st < steps; st++ )
      {
         if( how == 0 )
         {
            const int n = genLen( s ) + 1;
            Bytes b( n );
            const auto g = io.Read( reinterpret_cast<char *>( b.data() ), n );
            const size_t e = std::min<size_t>( n, all.size() - pos );
            c.check( g == e && std::equal( b.begin(), b.begin() + g, all.begin() + pos ), "Read(", n, ") at ", pos, " returned ", g, " expected ", e );
            pos += g;
            if( g < static_cast<uint32_t>( n ) ) return;
         }
         else if( how == 1 && s.chance( 1, 3 ) )
         {
            const bool end = pos >= all.size();
            const char g = io.ReadCharacter();
            c.check( g == ( end ? '\x1a' : static_cast<char>( all[pos] ) ), "ReadCharacter at ", pos );
            if( end ) return;
            pos++;
         }
         else
         {// lines: LastChar holds the next character; the loop below consumes one line with its end
            last = io.ReadCharacter();
            size_t p = pos;
            auto next = [&]() -> char { return p < all.size() ? static_cast<char>( all[p++] ) : '\x1a'; };
            char el = next();
            c.check( last == el, "first character of the line at ", pos );
            const int maxInp = s.chance( 1, 4 ) ? s.range( 1, 20 ) : 100000;
            std::string e;
            while( el != '\n' && el != '\r' && el != '\x1a' && (int) e.size() != maxInp )
            {
               e += el;
               el = next();
            }
            auto g = LineReader { io, ov }.get( maxInp, last, c );
            c.check( g == e, "line at ", pos, " has ", g.size(), " characters ", q( g.substr( 0, 20 ) ), ", expected ", e.size(), " ", q( e.substr( 0, 20 ) ) );
            c.check( last == el, "character after the line at ", pos, " is ", (int) last, " expected ", (int) el );
            pos = p;
            if( el == '\x1a' && pos >= all.size() ) return;
         }
      }
   }
   (void) primed;
   (void) gz;
}
}// namespace

VP_PROP( C24, text, "a file with more than 20 bytes was read to the end", 21000, 70000 )
{
   auto body = genText( s );
   const auto fn = c.path( "t" );
   unlink( fn.c_str() );
   const int form = s.weighted( { 4, 3, 4, 1 } );// plain, gzip, GAMS container, plain with byte order mark
   const std::string pass = form == 2 && s.flip() ? genPass( s ) : "";
   const bool comp = form == 2 && s.flip();
   std::string em { "?" };
   int en { -1 };
   if( form == 0 || form == 3 )
   {
      Bytes raw;
      if( form == 3 ) raw = { 0xEF, 0xBB, 0xBF };
      raw.insert( raw.end(), body.begin(), body.end() );
      if( form == 0 && s.flip() )
      {
         TBinaryTextFileIO o { fn, "prod", "", fsign_text, false, en, em };
         c.check( !en && em.empty(), "create ", em );
         c.check( o.Write( reinterpret_cast<char *>( raw.data() ), static_cast<uint32_t>( raw.size() ) ) == raw.size(), "Write" );
      }
      else
         spit( fn, raw );
      c.check( slurp( fn ) == raw, "plain text changed on the way" );
   }
   else if( form == 1 )
   {
      gzFile z = gzopen( fn.c_str(), "wb" );
      gzwrite( z, body.data(), static_cast<unsigned>( body.size() ) );
      gzclose( z );
   }
   else
   {
      TBinaryTextFileIO o { fn, s.flip() ? "prod" : "", pass, comp || !pass.empty() ? fsign_text : fsign_blocktext, comp, en, em };
      c.check( !en && em.empty(), "create ", em );
      size_t p {};
      while( p < body.size() )
      {
         const auto n = std::min<size_t>( body.size() - p, genLen( s ) + 1 );
         c.check( o.Write( reinterpret_cast<char *>( &body[p] ), static_cast<uint32_t>( n ) ) == n, "Write" );
         p += n;
      }
   }
   c.log( "form ", form, " compressed ", comp, " password ", q( pass ), " ", body.size(), " bytes" );
   if( !pass.empty() )
   {// without the password nothing is delivered
      int n2 { -1 };
      std::string m2;
      TBinaryTextFileIO i { fn, "", n2, m2 };
      c.check( n2 == strmErrorNoPassWord && !m2.empty(), "opened without a password: ", n2 );
   }
   {
      em = "?";
      en = -1;
      TBinaryTextFileIO i { fn, pass, en, em };
      c.check( !en && em.empty(), "open: ", en, " ", em );
      c.check( i.UsesPassWord() == !pass.empty(), "UsesPassWord" );
      readText( s, c, i, body, form == 1 );
      if( form != 1 && s.flip() )
      {
         i.ReWind();
         c.log( "ReWind" );
         readText( s, c, i, body, false );
         c.check( i.GetLastIOResult() == 0, "error reported" );
      }
   }
   static const char *names[] = { "plain", "gzip", "container", "byte order mark" };
   c.label( names[form] );
   c.nontrivial = body.size() > 20;
   c.desc = std::string( names[form] ) + ", " + std::to_string( body.size() ) + " bytes" + ( comp ? ", compressed" : "" ) + ( pass.empty() ? "" : ", password" );
}

VP_PROP( C24, textfiles, "text of more than 20 bytes went through compression and back", 7500, 25000 )
{
   auto body = genText( s );
   const auto a = c.path( "a" ), b = c.path( "b" ), d = c.path( "d" );
   unlink( b.c_str() );
   unlink( d.c_str() );
   spit( a, body );
   const std::string pass = s.flip() ? genPass( s ) : "";
   const bool comp = s.chance( 3, 4 );
   int en { -1 };
   std::string em;
   CompressTextFile( a, b, pass, comp, en, em );
   c.check( !en && em.empty(), "CompressTextFile: ", en, " ", em );
   if( !pass.empty() )
   {// a password that differs in more than its first character is refused
      std::string w = pass;
      w.back() = w.back() == 'x' ? 'y' : 'x';
      if( w.size() > 1 && pass.back() != ' ' )
      {
         UnCompressTextFile( b, d, w, en, em );
         c.check( en == strmErrorIntegrity && !em.empty(), "wrong password ", q( w ), " for ", q( pass ), " accepted: ", en );
         c.check( access( d.c_str(), F_OK ) != 0, "output written with a wrong password" );
      }
      em.clear();
   }
   UnCompressTextFile( b, d, pass, en, em );
   c.check( !en && em.empty(), "UnCompressTextFile: ", en, " ", em );
   c.check( slurp( d ) == body, "text of ", body.size(), " bytes came back as ", slurp( d ).size(), " bytes" );
   c.nontrivial = body.size() > 20 && ( comp || !pass.empty() );
   c.desc = std::to_string( body.size() ) + " bytes" + ( comp ? ", compressed" : "" ) + ( pass.empty() ? "" : ", password" );
}

// ------------------------------------------------------------------ errors
VP_PROP( C24, errors, "every case", 4500, 15000 )
{
   const int kind = s.range( 0, 6 );
   const auto fn = c.path( "e" );
   c.nontrivial = true;
   switch( kind )
   {
      case 0:
      {// nothing there
         unlink( fn.c_str() );
         TBufferedFileStream f { fn, fmOpenRead };
         c.check( f.GetLastIOResult() == ENOENT, "missing file opened" );
         int en {};
         std::string em;
         TBinaryTextFileIO i { fn, "", en, em };
         c.check( en == strmErrorIOResult && !em.empty(), "missing text file opened" );
         c.desc = "missing file";
         break;
      }
      case 1:
      {// folder that does not exist
         const auto bad = c.path( "no/such/file" );
         TBufferedFileStream f { bad, fmCreate };
         c.check( f.GetLastIOResult() != 0, "file created in a missing folder" );
         int en {};
         std::string em;
         TBinaryTextFileIO o { bad, "p", "", s.flip() ? fsign_text : fsign_blocktext, false, en, em };
         c.check( en != 0 && !em.empty(), "text file created in a missing folder" );
         c.check( o.Write( "x", 1 ) != 1, "Write claims success" );
         c.desc = "missing folder";
         break;
      }
      case 2:
      {// device without space: reported when the data is handed over, not before, and not lost
         TBufferedFileStream f { "/dev/full", fmOpenReadWrite };
         if( f.GetLastIOResult() ) break;
         auto b = genBytes( s, s.range( 1, BUF - 1 ) );
         c.check( f.Write( b.data(), static_cast<uint32_t>( b.size() ) ) == b.size(), "buffered write" );
         c.check( f.GetLastIOResult() == 0, "error before anything was handed over" );
         const bool comp = s.flip();
         if( comp ) f.SetCompression( true );
         else
            c.check( !f.FlushBuffer(), "FlushBuffer claims success" );
         c.check( f.GetLastIOResult() == ENOSPC, "no error reported" );
         c.check( f.GetLastIOResult() == 0, "error reported twice" );
         c.desc = "device without space";
         break;
      }
      case 3:
      {// write to a file opened for reading only
         spit( fn, genBytes( s, 50 ) );
         TBufferedFileStream f { fn, fmOpenRead };
         f.WriteInteger( 1 );
         c.check( !f.FlushBuffer() && f.GetLastIOResult() != 0, "read-only stream accepted data" );
         c.desc = "read-only";
         break;
      }
      case 4:
      {// encodings that are not supported
         static const Bytes boms[] = { { 254, 255, 0, 65 }, { 255, 254, 65, 0 }, { 0, 0, 254, 255 }, { 255, 254, 0, 0 } };
         const int k = s.range( 0, 3 );
         auto t = boms[k];
         const int n = s.size( 400 );
         for( int i {}; i < n; i++ ) t.push_back( static_cast<uint8_t>( s.range( 32, 126 ) ) );
         spit( fn, t );
         int en {};
         std::string em;
         TBinaryTextFileIO i { fn, "", en, em };
         c.check( en == strmErrorEncoding && !em.empty(), "encoding ", k, " accepted: ", en );
         c.desc = "encoding";
         break;
      }
      case 5:
      {// cut gzip file: what is delivered is the beginning of the text
         auto body = genText( s );
         gzFile z = gzopen( fn.c_str(), "wb" );
         gzwrite( z, body.data(), static_cast<unsigned>( body.size() ) );
         gzclose( z );
         auto raw = slurp( fn );
         const bool cut = s.flip();
         if( cut ) raw.resize( s.range( 2, static_cast<int>( raw.size() ) ) );
         else
            raw[s.range( 2, static_cast<int>( raw.size() ) - 1 )] ^= static_cast<uint8_t>( s.range( 1, 255 ) );
         spit( fn, raw );
         int en {};
         std::string em;
         TBinaryTextFileIO i { fn, "", en, em };
         if( en ) break;
         Bytes got;
         char buf[999];
         uint32_t g;
         while( ( g = i.Read( buf, sizeof buf ) ) > 0 && got.size() < 4000000 ) got.insert( got.end(), buf, buf + std::min<uint32_t>( g, sizeof buf ) );
         c.check( g == 0, "reading does not end" );
         i.GetLastIOResult();
         if( cut ) c.check( got.size() <= body.size() && std::equal( got.begin(), got.end(), body.begin() ), "cut gzip file delivers other bytes than the text had" );
         c.desc = cut ? "cut gzip file" : "damaged gzip file";
         break;
      }
      case 6:
      {// cut container
         auto body = genText( s );
         int en {};
         std::string em;
         {
            TBinaryTextFileIO o { fn, "p", s.flip() ? "pw" : "", fsign_blocktext, s.flip(), en, em };
            o.Write( reinterpret_cast<char *>( body.data() ), static_cast<uint32_t>( body.size() ) );
         }
         auto raw = slurp( fn );
         raw.resize( s.range( 14, static_cast<int>( raw.size() ) ) );
         spit( fn, raw );
         TBinaryTextFileIO i { fn, "pw", en, em };
         c.desc = "cut container";
         if( en ) break;
         Bytes got;
         char buf[999];
         uint32_t g;
         while( ( g = i.Read( buf, sizeof buf ) ) > 0 && got.size() < 4000000 ) got.insert( got.end(), buf, buf + std::min<uint32_t>( g, sizeof buf ) );
         c.check( got.size() <= body.size() && std::equal( got.begin(), got.end(), body.begin() ), "cut container delivers other bytes than the text had" );
         break;
      }
   }
}

// known finding: the first character of a password plays no role
VP_PROP( C24, pw_first, "every case", 1, 1 )
{
   const auto a = c.path( "a" ), b = c.path( "b" ), d = c.path( "d" );
   spit( a, { 'x', '\n' } );
   int en {};
   std::string em;
   CompressTextFile( a, b, "secret", false, en, em );
   UnCompressTextFile( b, d, "decret", en, em );
   c.nontrivial = true;
   c.desc = "password differing in its first character";
   c.check( en != 0, "text file written with the password \"secret\" opens with \"decret\"" );
}
