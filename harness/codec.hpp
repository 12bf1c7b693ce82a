// An encoder and a decoder of the GDX file layout that share no code with the library.
#pragma once
#include "model.hpp"
#include <zlib.h>

namespace vp
{
struct Acr {
   std::string name, text;
   int idx {};
};
struct FileDoc {
   Doc d;
   std::vector<Acr> acrs;
   int version { 7 }, compr {};
   std::string audit, producer;
   std::vector<std::string> fileTexts;// as stored, with duplicates
   std::vector<int> recHeader;        // record counter in front of the data, per symbol
   std::vector<bool> symCompr;
   std::vector<uint8_t> hasText;
   size_t end {};// where the tables end
};

// ---------------------------------------------------------------- decoding
struct DecodeError : std::runtime_error {
   using std::runtime_error::runtime_error;
};

class Decoder
{
   const std::string &b;
   size_t pos {};
   bool comp {};
   std::string buf;// current block when compressed
   size_t bp {};
   [[noreturn]] void bad( const std::string &m ) { throw DecodeError( m + " (at byte " + std::to_string( pos ) + ")" ); }

public:
   explicit Decoder( const std::string &bytes ) : b { bytes } {}
   void seek( int64_t p, bool c )
   {
      if( p < 0 || (size_t) p > b.size() ) bad( "position " + std::to_string( p ) + " outside of the file" );
      pos = (size_t) p;
      comp = c;
      buf.clear();
      bp = 0;
   }
   size_t tell() const { return pos; }
   bool blockDone() const { return bp >= buf.size(); }
   void nextBlock()
   {
      if( pos + 3 > b.size() ) bad( "no room for a block header" );
      int typ = (uint8_t) b[pos];
      size_t len = (size_t) (uint8_t) b[pos + 1] * 256 + (uint8_t) b[pos + 2];
      pos += 3;
      if( pos + len > b.size() || !len ) bad( "block of " + std::to_string( len ) + " bytes does not fit" );
      if( typ == 0 ) buf = b.substr( pos, len );
      else if( typ == 1 )
      {
         buf.assign( 65536, 0 );
         uLongf n = buf.size();
         if( uncompress( (Bytef *) &buf[0], &n, (const Bytef *) &b[pos], len ) != Z_OK ) bad( "block cannot be expanded" );
         buf.resize( n );
      }
      else
         bad( "block type " + std::to_string( typ ) );
      if( buf.size() > 32768 ) bad( "block expands to " + std::to_string( buf.size() ) + " bytes" );
      pos += len;
      bp = 0;
   }
   void get( void *p, size_t n )
   {
      auto o = (char *) p;
      if( !comp )
      {
         if( pos + n > b.size() ) bad( "unexpected end of file" );
         std::memcpy( o, &b[pos], n );
         pos += n;
         return;
      }
      while( n )
      {
         if( bp >= buf.size() ) nextBlock();
         size_t k = std::min( n, buf.size() - bp );
         std::memcpy( o, &buf[bp], k );
         bp += k;
         o += k;
         n -= k;
      }
   }
   template<class T>
   T num()
   {
      T v;
      get( &v, sizeof v );
      return v;
   }
   std::string str()
   {
      int n = num<uint8_t>();
      std::string r( n, 0 );
      if( n ) get( &r[0], n );
      return r;
   }
   void mark( const char *m )
   {
      std::string x = str();
      if( x != m ) bad( std::string( "expected mark " ) + m );
   }
};

FileDoc decodeFile( const std::string &bytes );

// ---------------------------------------------------------------- encoding
struct EncCfg {
   int version { 7 };
   bool swapW {}, swapI {}, swapD {};
   int compr {};
   bool shuffleSections {};
   bool gaps {};
   bool blocks {};// odd block sizes and types
   uint64_t rnd { 1 };
   std::string audit, producer;
   std::vector<bool> symCompr;
};
std::string encodeFile( const FileDoc &f, const EncCfg &e );
}// namespace vp
