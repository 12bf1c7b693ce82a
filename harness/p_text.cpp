// C28: text, path, date, directory and environment helpers against small references.
#include "core.hpp"

#include "gdlib/strutilx.hpp"
#include "gdlib/utils.hpp"
#include "rtl/p3utils.hpp"
#include "rtl/sysutils_p3.hpp"
#include <cmath>
#include <dirent.h>
#include <fnmatch.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace vp;
namespace sx = gdlib::strutilx;
namespace su = rtl::sysutils_p3;

namespace
{
char up( char ch ) { return ch >= 'a' && ch <= 'z' ? static_cast<char>( ch - 32 ) : ch; }
char low( char ch ) { return ch >= 'A' && ch <= 'Z' ? static_cast<char>( ch + 32 ) : ch; }
std::string ups( std::string t )
{
   for( char &ch: t ) ch = up( ch );
   return t;
}
std::string lows( std::string t )
{
   for( char &ch: t ) ch = low( ch );
   return t;
}
int sgn( int x ) { return x < 0 ? -1 : x > 0; }
// few letters, so that substrings repeat and overlap
std::string genText( Src &s, int maxLen, const char *alphabet = "aAbB \t.'\"" )
{
   std::string t;
   const int n = static_cast<int>( strlen( alphabet ) );
   for( int k = s.range( 0, maxLen ); k > 0; k-- ) t += alphabet[s.range( 0, n - 1 )];
   return t;
}
std::string spoil( Src &s, const std::string &t )// similar text
{
   std::string u = t;
   for( char &ch: u )
      if( s.chance( 1, 3 ) ) ch = s.flip() ? up( ch ) : low( ch );
   if( s.chance( 1, 3 ) && !u.empty() ) u[s.range( 0, static_cast<int>( u.size() ) - 1 )] = "abzZ@[`{ "[s.range( 0, 8 )];
   if( s.chance( 1, 4 ) ) u += 'a';
   if( s.chance( 1, 4 ) && !u.empty() ) u.pop_back();
   return u;
}
std::string strip( const std::string &t, const std::function<bool( char )> &blank, bool l, bool r )
{
   size_t a {}, z = t.size();
   if( l )
      while( a < z && blank( t[a] ) ) a++;
   if( r )
      while( z > a && blank( t[z - 1] ) ) z--;
   return t.substr( a, z - a );
}
std::string replaceAll( const std::string &t, const std::string &a, const std::string &b )
{
   if( a.empty() ) return t;
   std::string r;
   for( size_t i {}; i < t.size(); )
   {
      if( t.compare( i, a.size(), a ) == 0 ) r += b, i += a.size();
      else
         r += t[i++];
   }
   return r;
}
int refCmp( const std::string &a, const std::string &b, bool ci )
{
   const std::string x = ci ? ups( a ) : a, y = ci ? ups( b ) : b;
   return sgn( x.compare( y ) );
}
// meaning of a path: absolute flag and its components with "." and "x/.." resolved
std::pair<bool, std::vector<std::string>> meaning( const std::string &p )
{
   const bool abs = !p.empty() && p[0] == '/';
   std::vector<std::string> v;
   std::string cur;
   for( size_t i {}; i <= p.size(); i++ )
   {
      if( i < p.size() && p[i] != '/' )
      {
         cur += p[i];
         continue;
      }
      if( cur == ".." )
      {
         if( !v.empty() && v.back() != ".." ) v.pop_back();
         else if( !abs )
            v.push_back( cur );
      }
      else if( !cur.empty() && cur != "." )
         v.push_back( cur );
      cur.clear();
   }
   return { abs, v };
}
std::string genPath( Src &s, int maxParts, bool abs )
{
   static const std::vector<std::string> comp { "a", "bb", "ccc", "d.e", "..", ".", "..", ".hid", "x..", "..y", "Ab" };
   std::string p = abs ? "/" : "";
   const int n = s.range( 1, maxParts );
   for( int i {}; i < n; i++ )
   {
      if( i ) p += s.chance( 1, 8 ) ? "//" : "/";
      p += s.pick( comp );
   }
   return p;
}
int64_t daysFromCivil( int64_t y, unsigned m, unsigned d )// days since 1970-01-01
{
   y -= m <= 2;
   const int64_t era = ( y >= 0 ? y : y - 399 ) / 400;
   const unsigned yoe = static_cast<unsigned>( y - era * 400 );
   const unsigned doy = ( 153 * ( m + ( m > 2 ? -3 : 9 ) ) + 2 ) / 5 + d - 1;
   const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + static_cast<int64_t>( doe ) - 719468;
}
bool leap( int y ) { return ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0; }
int mdays( int y, int m )
{
   static const int t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   return m == 2 && leap( y ) ? 29 : t[m - 1];
}
}// namespace

VP_PROP( C28, search, "the pattern occurs in the text", 96000, 160000 )
{
   for( int it {}; it < 6; it++ )
   {
      const std::string t = genText( s, 14, "aab" ), p = s.flip() ? genText( s, 4, "aab" ) : t.substr( s.range( 0, static_cast<int>( t.size() ) ), s.range( 0, 5 ) );
      const int sp = s.range( -2, 16 );
      c.log( "text=" + q( t ) + " pattern=" + q( p ) + " from " + std::to_string( sp ) );
      auto pos = [&]( size_t x ) { return x == std::string::npos ? -1 : static_cast<int>( x ); };
      const int ref0 = p.empty() || t.empty() ? -1 : pos( t.find( p ) );
      const int refs = p.empty() || t.empty() || sp < 0 || sp > static_cast<int>( t.size() ) ? -1 : pos( t.find( p, sp ) );
      c.check( sx::LStrPos( p, t ) == ref0, "LStrPos gives " + std::to_string( sx::LStrPos( p, t ) ) );
      c.check( sx::LStrPosSp( p, t, sp ) == refs, "LStrPosSp gives " + std::to_string( sx::LStrPosSp( p, t, sp ) ) + " instead of " + std::to_string( refs ) );
      const char ch = "abc"[s.range( 0, 2 )];
      c.check( sx::LChPos( ch, t.c_str() ) == pos( t.find( ch ) ), "LChPos" );
      if( sp <= static_cast<int>( t.size() ) ) c.check( sx::LChPosSp( ch, t.c_str(), sp ) == pos( t.find( ch, std::max( 0, sp ) ) ), "LChPosSp" );
      const std::string cs = s.flip() ? "bc" : "c";
      c.check( sx::LChSetPos( cs.c_str(), t.c_str(), static_cast<int>( t.size() ) ) == pos( t.find_first_of( cs ) ), "LChSetPos" );
      c.check( sx::RChSetPos( cs.c_str(), t.c_str(), static_cast<int>( t.size() ) ) == pos( t.find_last_of( cs ) ), "RChSetPos" );
      c.check( su::LastDelimiter( cs.c_str(), t ) == pos( t.find_last_of( cs ) ), "LastDelimiter" );
      c.check( su::LastDelimiter( std::string_view { cs }, std::string_view { t } ) == pos( t.find_last_of( cs ) ), "LastDelimiter of views" );
      c.check( utils::lastOccurence( t, ch ) == pos( t.rfind( ch ) ), "lastOccurence" );
      c.check( utils::posOfSubstr( p, t ) == pos( t.find( p ) ), "posOfSubstr" );
      c.check( utils::indexOf( t, ch ) == pos( t.find( ch ) ), "indexOf" );
      c.check( utils::strContains( t, ch ) == ( t.find( ch ) != std::string::npos ), "strContains" );
      c.check( utils::strContains( t, { 'b', 'c' } ) == ( t.find_first_of( "bc" ) != std::string::npos ), "strContains of a set" );
      c.check( utils::starts_with( t, p ) == ( t.compare( 0, p.size(), p ) == 0 && p.size() <= t.size() ), "starts_with" );
      c.check( utils::ends_with( t, p ) == ( p.size() <= t.size() && t.compare( t.size() - p.size(), p.size(), p ) == 0 ), "ends_with" );
      const int gp = s.range( -1, 16 );
      c.check( sx::gsgetchar( t, gp ) == ( gp >= 1 && gp <= static_cast<int>( t.size() ) ? t[gp - 1] : 0 ), "gsgetchar" );
      // replacing
      const std::string r = genText( s, 3, "abx" );
      c.check( sx::ReplaceStr( p, r, t ) == replaceAll( t, p, r ), "ReplaceStr gives " + q( sx::ReplaceStr( p, r, t ) ) );
      c.check( utils::replaceSubstrs( t, p, r ) == replaceAll( t, p, r ), "replaceSubstrs" );
      std::string e = t, f = t;
      for( char &x: e )
         if( x == 'a' || x == 'c' ) x = 'Z';
      c.check( sx::ReplaceChar( utils::charset { 'a', 'c' }, 'Z', t ) == e, "ReplaceChar" );
      utils::replaceChar( 'a', ch, f );
      std::string g = t;
      for( char &x: g )
         if( x == 'a' ) x = ch;
      c.check( f == g, "replaceChar" );
      const int off = s.range( 0, 16 ), ln = s.range( 0, 6 );
      c.check( std::string( utils::substr( t, off, ln ) ) == ( off < static_cast<int>( t.size() ) ? t.substr( off, ln ) : "" ), "substr" );
      if( ref0 >= 0 ) c.nontrivial = true;
   }
}

VP_PROP( C28, compare, "the texts differ only in case or are equal", 96000, 160000 )
{
   for( int it {}; it < 6; it++ )
   {
      const std::string a = genText( s, 8, "aAbBzZ@[`{ 5" ), b = spoil( s, a );
      c.log( q( a ) + " vs " + q( b ) );
      const bool eq = a == b, ci = ups( a ) == ups( b );
      c.check( sx::StrUEqual( a, b ) == ci, "StrUEqual" );
      c.check( sx::StrUEqual( sx::DelphiStrRef { static_cast<uint8_t>( a.size() ), a.c_str() }, b ) == ci, "StrUEqual of a short string" );
      c.check( sx::sameTextSR( sx::DelphiStrRef { static_cast<uint8_t>( a.size() ), a.c_str() }, b ) == ci, "sameTextSR" );
      c.check( sx::PStrUEqual( a, b ) == ci, "PStrUEqual" );
      c.check( sx::PStrEqual( a, b ) == eq, "PStrEqual" );
      c.check( su::SameText( a, b ) == ci, "SameText" );
      c.check( utils::sameText( a, b ) == ci, "sameText" );
      c.check( utils::sameText<false>( a, b ) == eq, "sameText with case" );
      c.check( utils::sameTextPChar( a.c_str(), b.c_str() ) == ci, "sameTextPChar" );
      c.check( utils::sameTextPChar<false>( a.c_str(), b.c_str() ) == eq, "sameTextPChar with case" );
      c.check( utils::sameTextPrefix( a, b ) == ( b.size() <= a.size() && ups( a.substr( 0, b.size() ) ) == ups( b ) ), "sameTextPrefix" );
      c.check( sgn( sx::StrUCmp( a, b ) ) == refCmp( a, b, true ), "StrUCmp" );
      c.check( sgn( sx::StrUCmp( sx::DelphiStrRef { static_cast<uint8_t>( a.size() ), a.c_str() }, sx::DelphiStrRef { static_cast<uint8_t>( b.size() ), b.c_str() } ) ) == refCmp( a, b, true ), "StrUCmp of short strings" );
      c.check( sgn( sx::PStrUCmp( a, b ) ) == refCmp( a, b, true ), "PStrUCmp" );
      c.check( sgn( su::CompareStr( a, b ) ) == refCmp( a, b, false ), "CompareStr" );
      c.check( sgn( su::CompareText( a, b ) ) == refCmp( a, b, true ), "CompareText" );
      c.check( sgn( utils::strCompare( std::string_view { a }, std::string_view { b }, true ) ) == refCmp( a, b, true ), "strCompare" );
      c.check( sgn( utils::strCompare( a.c_str(), b.c_str(), true ) ) == refCmp( a, b, true ), "strCompare of C strings" );
      c.check( sgn( utils::strCompare( std::string_view { a }, std::string_view { b }, false ) ) == refCmp( a, b, false ), "strCompare with case" );
      c.check( sgn( utils::strCompare( a.c_str(), b.c_str(), false ) ) == refCmp( a, b, false ), "strCompare of C strings with case" );
      c.check( sx::UpperCase( a ) == ups( a ) && su::UpperCase( a ) == ups( a ) && utils::uppercase( a ) == ups( a ), "upper case" );
      c.check( sx::LowerCase( a ) == lows( a ) && su::LowerCase( a ) == lows( a ) && utils::lowercase( a ) == lows( a ), "lower case" );
      std::array<char, 32> buf;
      utils::copy_to_uppercase( a, buf.data() );
      c.check( ups( a ) == buf.data(), "copy_to_uppercase" );
      utils::copy_to_uppercase( a.c_str(), buf.data() );
      c.check( ups( a ) == buf.data(), "copy_to_uppercase of a C string" );
      if( ci ) c.nontrivial = true;
   }
}

VP_PROP( C28, shape, "the text has blanks at an end or between words", 96000, 160000 )
{
   for( int it {}; it < 6; it++ )
   {
      const std::string t = s.chance( 1, 6 ) ? std::string( s.range( 0, 4 ), ' ' ) : genText( s, 12, "aB  \t\n,;" );
      c.log( q( t ) );
      auto ctl = []( char ch ) { return static_cast<unsigned char>( ch ) <= 32; };
      auto ws = []( char ch ) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; };
      auto bl = []( char ch ) { return ch == ' ' || ch == '\t'; };
      c.check( su::Trim( t ) == strip( t, ctl, true, true ), "Trim" );
      c.check( su::TrimLeft( t ) == strip( t, ctl, true, false ), "TrimLeft" );
      c.check( su::TrimRight( t ) == strip( t, ctl, false, true ), "TrimRight" );
      c.check( utils::trim( t ) == strip( t, ws, true, true ), "trim" );
      c.check( std::string( utils::trim( std::string_view { t } ) ) == strip( t, ws, true, true ), "trim of a view" );
      c.check( utils::trimRight( t ) == strip( t, bl, false, true ), "trimRight" );
      std::string st = genText( s, 12 );
      utils::trimRight( t, st );
      c.check( st == strip( t, bl, false, true ), "trimRight into storage: " + q( st ) );
      std::string tl = t;
      utils::trimLeft( tl );
      c.check( tl == strip( t, ws, true, false ), "trimLeft" );
      {
         std::array<char, 256> sb;
         int len {};
         const char *r = utils::trimRight( t.c_str(), sb.data(), len );
         c.check( strip( t, ctl, false, true ) == r && len == static_cast<int>( strlen( r ) ), "trimRight of a C string" );
      }
      c.check( utils::hasNonBlank( t ) == !strip( t, ws, true, true ).empty(), "hasNonBlank" );
      const int w = s.chance( 1, 8 ) ? s.range( 250, 300 ) : s.range( -2, 20 );
      const int pad = std::max( 0, std::min( 255, w ) - static_cast<int>( t.size() ) );
      c.check( sx::PadRight( t, w ) == t + std::string( pad, ' ' ), "PadRight" );
      c.check( sx::PadLeft( t, w ) == std::string( pad, ' ' ) + t, "PadLeft" );
      const int m = s.range( -1, 9 ), pm = m > 0 ? ( m - static_cast<int>( t.size() ) % m ) % m : 0;
      c.check( sx::PadRightMod( t, m ) == t + std::string( pm, ' ' ), "PadRightMod" );
      c.check( sx::PadModLength( t, m ) == static_cast<int>( t.size() ) + pm, "PadModLength" );
      c.check( sx::BlankStr( std::max( 0, w ) ) == std::string( std::max( 0, w ), ' ' ), "BlankStr" );
      c.check( utils::blanks( w ) == std::string( std::max( 0, w ), ' ' ), "blanks" );
      // parts
      const char sep = ",; "[s.range( 0, 2 )];
      std::list<std::string> parts;
      std::string cur;
      for( char ch: t + sep )
         if( ch != sep ) cur += ch;
         else if( !cur.empty() )
            parts.push_back( cur ), cur.clear();
      c.check( utils::split( t, sep ) == parts, "split" );
      const std::string x = genText( s, 4 ), y = genText( s, 4 ), z = genText( s, 4 );
      c.check( utils::join( '#', { x, y, z } ) == x + "#" + y + "#" + z, "join" );
      c.check( utils::quoteWhitespace( t, '\'' ) == ( t.find( ' ' ) == std::string::npos ? t : "'" + t + "'" ), "quoteWhitespace" );
      const std::string num = std::to_string( s.range( 0, 99 ) ) + ( s.flip() ? "." + std::to_string( s.range( 0, 9 ) ) : "" ) + std::string( s.range( 0, 3 ), '0' );
      const std::string tz = utils::trimZeroesRight( num, '.' );
      c.check( num.find( '.' ) == std::string::npos ? tz == num : ( strtod( tz.c_str(), nullptr ) == strtod( num.c_str(), nullptr ) && tz.back() != '0' ), "trimZeroesRight gives " + q( tz ) + " for " + q( num ) );
      if( t != strip( t, ctl, true, true ) ) c.nontrivial = true;
   }
}

VP_PROP( C28, tokens, "a quoted token or at least two tokens", 72000, 120000 )
{
   for( int it {}; it < 4; it++ )
   {
      // a line of tokens, some in quotes, with any number of blanks in between
      std::string line;
      std::vector<std::string> want;
      const int n = s.range( 0, 5 );
      line += std::string( s.range( 0, 2 ), ' ' );
      bool quoted {};
      for( int i {}; i < n; i++ )
      {
         if( s.flip() )
         {
            const char qc = s.flip() ? '\'' : '"';
            std::string t = genText( s, 5, qc == '"' ? "ab '." : "ab \"." );
            line += qc + t + qc;
            want.push_back( t );
            quoted = true;
         }
         else
         {
            std::string t = "x" + genText( s, 4, "ab.'\"" );
            line += t;
            want.push_back( t );
         }
         line += std::string( s.range( i + 1 < n ? 1 : 0, 3 ), ' ' );
      }
      c.log( q( line ) );
      int p = 1;
      for( size_t i {}; i < want.size(); i++ )
      {
         const std::string t = sx::ExtractToken( line, p );
         c.check( t == want[i], "token " + std::to_string( i ) + " of " + q( line ) + " is " + q( t ) + " instead of " + q( want[i] ) );
      }
      c.check( sx::ExtractToken( line, p ).empty(), "a token after the last one" );
      c.check( p >= static_cast<int>( line.size() ) + 1, "position does not reach the end of " + q( line ) );
      if( quoted || want.size() > 1 ) c.nontrivial = true;
      // items separated by blanks, quotes keep blanks together and stay
      std::string l2;
      std::list<std::string> w2;
      for( int i = s.range( 0, 4 ); i > 0; i-- )
      {
         std::string t = genText( s, 4, "ab." );
         if( s.flip() ) t += "\"" + genText( s, 4, "a b" ) + "\"";
         if( s.chance( 1, 4 ) ) t += "'" + genText( s, 4, "a b" ) + "'";
         l2 += std::string( s.range( 1, 2 ), ' ' ) + t;
         if( !t.empty() ) w2.push_back( t );
      }
      c.check( utils::splitWithQuotedItems( l2 ) == w2, "splitWithQuotedItems of " + q( l2 ) );
      // directories with blanks get quotes, and taking the quotes away gives the path back
      const std::string d = s.pick( std::vector<std::string> { "/", "", "rel/" } ) + genText( s, 4, "ab " ) + "x/" + genText( s, 4, "ab " ) + "y" + ( s.flip() ? "/" : "" );
      const std::string dq = utils::quoteWhitespaceDir( d, '/', '"' );
      std::string back;
      for( char ch: dq )
         if( ch != '"' ) back += ch;
      c.check( back == d, "quoteWhitespaceDir changes " + q( d ) + " to " + q( dq ) );
      bool in {};
      for( char ch: dq )
      {
         if( ch == '"' ) in = !in;
         c.check( ch != ' ' || in, "blank outside quotes in " + q( dq ) );
      }
   }
}

VP_PROP( C28, shortstr, "a text of more than 200 characters", 48000, 80000 )
{
   const int n = s.weighted( { 2, 2, 1 } ) == 0 ? s.range( 0, 20 ) : s.flip() ? s.range( 250, 260 ) : s.range( 0, 300 );
   std::string t;
   for( int i {}; i < n; i++ ) t += static_cast<char>( s.range( 0, 99 ) < 90 ? 'a' + i % 26 : s.range( 1, 255 ) );
   c.desc = "length " + std::to_string( n );
   std::vector<char> buf( 600, '#' ), b2( 600, '#' ), b3( 600, '#' );
   memcpy( buf.data(), t.c_str(), t.size() + 1 );
   const int rc = sx::strConvCtoDelphi( buf.data() ), rc2 = sx::strConvCppToDelphi( t, b2.data() ), rc3 = utils::strConvCppToDelphi( t, b3.data() );
   if( n <= 255 )
   {
      c.check( rc == 0 && rc2 == 0 && rc3 == 0, "conversion refused" );
      for( const auto *b: { &buf, &b2, &b3 } )
      {
         c.check( static_cast<uint8_t>( ( *b )[0] ) == n, "length byte" );
         c.check( std::string( b->data() + 1, n ) == t, "characters" );
         c.check( sx::strConvDelphiToCpp( b->data() ) == t, "back to a C++ string" );
      }
      sx::strConvDelphiToC( buf.data() );
      c.check( t == buf.data(), "back to a C string" );
   }
   else
      c.check( rc != 0 && rc2 != 0 && rc3 != 0, "an over-long text was accepted" );
   if( n > 200 ) c.nontrivial = true;
}

VP_PROP( C28, filenames, "a name with both a directory and a dot", 96000, 160000 )
{
   for( int it {}; it < 6; it++ )
   {
      // a dot as the very first character may or may not start an extension, so names do not start with one
      const std::string f = s.pick( std::vector<std::string> { "", "a", "/", "b/" } ) + "a" + genText( s, 14, "ab./.a/c" ), ext = s.pick( std::vector<std::string> { ".gdx", ".txt", "", ".a.b" } );
      c.log( q( f ) );
      const size_t sl = f.rfind( '/' );
      const std::string dir = sl == std::string::npos ? "" : f.substr( 0, sl + 1 ), name = sl == std::string::npos ? f : f.substr( sl + 1 );
      const size_t dot = name.rfind( '.' );
      const std::string e = dot == std::string::npos ? "" : name.substr( dot ), base = dot == std::string::npos ? f : dir + name.substr( 0, dot );
      c.check( su::ExtractFilePath( f ) == dir && sx::ExtractFilePathEx( f ) == dir, "directory part of " + q( f ) );
      c.check( su::ExtractFileName( f ) == name && sx::ExtractFileNameEx( f ) == name, "name part of " + q( f ) );
      c.check( su::ExtractFileExt( f ) == e, "extension of " + q( f ) + " is " + q( su::ExtractFileExt( f ) ) );
      c.check( sx::ExtractFileExtEx( f ) == e, "extension (ex) of " + q( f ) + " is " + q( sx::ExtractFileExtEx( f ) ) );
      c.check( su::ChangeFileExt( f, ext ) == base + ext, "ChangeFileExt" );
      c.check( su::ReplaceFileExt( f, ext ) == base + ext, "ReplaceFileExt" );
      c.check( sx::ChangeFileExtEx( f, ext ) == base + ext, "ChangeFileExtEx" );
      c.check( su::CompleteFileExt( f, ext ) == ( e.empty() ? f + ext : f ), "CompleteFileExt of " + q( f ) );
      c.check( sx::CompleteFileExtEx( f, ext ) == ( e.empty() ? f + ext : f ), "CompleteFileExtEx" );
      const bool tr = !f.empty() && f.back() == '/';
      c.check( su::IncludeTrailingPathDelimiter( f ) == ( tr ? f : f + "/" ) && sx::IncludeTrailingPathDelimiterEx( f ) == ( tr ? f : f + "/" ), "IncludeTrailingPathDelimiter" );
      const std::string ex = tr ? f.substr( 0, f.size() - 1 ) : f;
      c.check( su::ExcludeTrailingPathDelimiter( f ) == ex && sx::ExcludeTrailingPathDelimiterEx( f ) == ex, "ExcludeTrailingPathDelimiter" );
      if( !dir.empty() && !e.empty() ) c.nontrivial = true;
   }
}

VP_PROP( C28, paths, "a path with a parent step", 96000, 160000 )
{
   for( int it {}; it < 6; it++ )
   {
      std::string p = genPath( s, 7, s.flip() );
      if( s.flip() ) p += '/';
      std::string r = p;
      sx::cleanpath( r, '/' );
      c.log( q( p ) + " -> " + q( r ) );
      // an empty result of a relative path means the directory itself
      c.check( meaning( r ) == meaning( p ), "cleaning " + q( p ) + " gives another place: " + q( r ) );
      std::string r2 = r;
      sx::cleanpath( r2, '/' );
      c.check( r2 == r, "cleaning twice changes " + q( r ) + " to " + q( r2 ) );
      c.check( r.size() <= p.size(), "cleaning made the path longer" );
      c.check( r.find( "/./", 1 ) == std::string::npos, "a current-directory step is left in " + q( r ) );
      if( r.size() > 2 ) c.check( r.find( "//", 1 ) == std::string::npos, "a double delimiter is left in " + q( r ) );
      const std::string dir = genPath( s, 4, true ), f = genPath( s, 4, s.chance( 1, 4 ) );
      const bool rel = s.flip();
      const int fc = s.chance( 1, 3 ) ? s.range( 0, 4 ) : 0;
      const bool keep = f[0] == '/' || ( rel && f[0] == '.' );
      const std::string whole = keep ? f : dir + "/" + f;
      auto cased = [&]( std::string x, std::string y ) { return fc == 1 ? x == ups( y ) : fc == 2 ? x == lows( y ) : fc == 0 ? x == y : lows( x ) == lows( y ); };
      auto text = []( const std::string &x ) {
         auto m = meaning( x );
         std::string o = m.first ? "/" : "";
         for( auto &e: m.second ) o += e + "/";
         return o;
      };
      const std::string fn = sx::CompleteFileNameEx( dir, f, fc, rel );
      c.check( cased( text( fn ), text( whole ) ), "CompleteFileNameEx(" + q( dir ) + "," + q( f ) + ") = " + q( fn ) );
      const std::string dn = sx::CompleteDirEx( dir, f, fc, rel );
      c.check( cased( text( dn ), text( whole ) ), "CompleteDirEx(" + q( dir ) + "," + q( f ) + ") = " + q( dn ) );
      c.check( dn.empty() || dn.back() == '/', "CompleteDirEx result without trailing delimiter: " + q( dn ) );
      if( fc == 3 || fc == 4 )
      {
         const size_t sl = fn.rfind( '/' );
         const std::string nm = sl == std::string::npos ? fn : fn.substr( sl + 1 );
         c.check( nm == ( fc == 3 ? ups( nm ) : lows( nm ) ), "file name case" );
         std::string plain = sx::CompleteFileNameEx( dir, f, 0, rel );
         if( sl != std::string::npos ) c.check( plain.substr( 0, sl + 1 ) == fn.substr( 0, sl + 1 ), "directory case changed" );
      }
      if( p.find( "../" ) != std::string::npos ) c.nontrivial = true;
   }
}

VP_PROP( C28, dates, "a date around a leap day, a century or the end of a month", 96000, 160000 )
{
   setenv( "TZ", "UTC", 1 );
   tzset();
   for( int it {}; it < 6; it++ )
   {
      int y = s.weighted( { 3, 2, 2, 1 } ) == 0 ? s.range( 1900, 2100 ) : s.flip() ? s.range( 1601, 9999 ) : s.pick( std::vector<int> { 1700, 1800, 1900, 2000, 2100, 2400, 1904, 1999, 4000, 1600, 1601 } );
      if( s.chance( 1, 6 ) ) y = s.range( 1, 1700 );
      const int m = s.range( 1, 12 );
      int d = s.flip() ? s.range( 1, mdays( y, m ) ) : s.pick( std::vector<int> { 1, mdays( y, m ), std::min( 28, mdays( y, m ) ) } );
      const int64_t ref = daysFromCivil( y, m, d ) + 25569;// 1899-12-30 is day 0
      c.log( std::to_string( y ) + "-" + std::to_string( m ) + "-" + std::to_string( d ) );
      double dv { -1 };
      c.check( su::tryEncodeDate( y, m, d, dv ), "date refused" );
      c.check( dv == ref, "tryEncodeDate gives " + std::to_string( dv ) + " instead of " + std::to_string( ref ) );
      if( y > 1600 ) c.check( su::EncodeDate( y, m, d ) == ref, "EncodeDate gives " + std::to_string( su::EncodeDate( y, m, d ) ) + " instead of " + std::to_string( ref ) );
      uint16_t yy {}, mm {}, dd {}, hh {}, mi {}, ss {}, ms {};
      su::DecodeDate( static_cast<double>( ref ), yy, mm, dd );
      c.check( yy == y && mm == m && dd == d, "DecodeDate gives " + std::to_string( yy ) + "-" + std::to_string( mm ) + "-" + std::to_string( dd ) );
      double junk {};
      c.check( !su::tryEncodeDate( y, m, mdays( y, m ) + 1, junk ) && !su::tryEncodeDate( y, m, 0, junk ) && !su::tryEncodeDate( y, 13, d, junk ) && !su::tryEncodeDate( y, 0, d, junk ), "impossible date accepted" );
      c.check( su::isLeapYear( y ) == leap( y ), "isLeapYear" );
      const int h = s.range( 0, 23 ), mn = s.range( 0, 59 ), sc = s.range( 0, 59 ), ml = s.flip() ? s.range( 0, 999 ) : 0;
      const double tv = su::EncodeTime( h, mn, sc, ml );
      c.check( tv >= 0 && tv < 1, "EncodeTime out of a day" );
      su::DecodeTime( tv, hh, mi, ss, ms );
      c.check( hh == h && mi == mn && ss == sc && ms == ml, "DecodeTime gives " + std::to_string( hh ) + ":" + std::to_string( mi ) + ":" + std::to_string( ss ) + "." + std::to_string( ms ) );
      if( y >= 1900 )
      {
         const double dt = su::EncodeDateTime( y, m, d, h, mn, sc, ml );
         c.check( std::fabs( dt - ( ref + tv ) ) < 1e-8, "EncodeDateTime" );
         su::DecodeDate( dt, yy, mm, dd );
         su::DecodeTime( dt, hh, mi, ss, ms );
         c.check( yy == y && mm == m && dd == d && hh == h && mi == mn && ss == sc && ms == ml, "EncodeDateTime decodes to " + std::to_string( yy ) + "-" + std::to_string( mm ) + "-" + std::to_string( dd ) + " " + std::to_string( hh ) + ":" + std::to_string( mi ) + ":" + std::to_string( ss ) + "." + std::to_string( ms ) );
         const auto ts = su::DateTimeToTimeStamp( dt );
         c.check( ts.Date == ref + su::DateDelta && ts.Time == ( ( h * 60 + mn ) * 60 + sc ) * 1000 + ml, "DateTimeToTimeStamp" );
         c.check( std::fabs( su::TimeStampToDateTime( ts ) - dt ) < 1e-8, "TimeStampToDateTime" );
         if( y >= 1980 && y <= 2037 )
         {
            const int64_t unix = daysFromCivil( y, m, d ) * 86400 + ( h * 60 + mn ) * 60 + sc;
            if( unix <= 2147483647LL )
            {
               const double fd = su::FileDateToDateTime( static_cast<int>( unix ) );
               c.check( std::fabs( fd - ( ref + su::EncodeTime( h, mn, sc, 0 ) ) ) < 1e-8, "FileDateToDateTime" );
               c.check( su::DateTimeToFileDate( fd ) == unix, "DateTimeToFileDate" );
            }
         }
      }
      if( d >= 28 || y % 100 == 0 ) c.nontrivial = true;
   }
}

VP_PROP( C28, directory, "at least two files match", 9600, 16000 )
{
   const std::string dir = c.path( "d" );
   mkdir( dir.c_str(), 0777 );
   std::map<std::string, int> made;// 0 file, 1 directory, 2 link
   for( int n = s.range( 0, 10 ); n > 0; n-- )
   {
      const std::string nm = genText( s, 4, "ab.c*?[]-" ) + s.pick( std::vector<std::string> { "", ".gdx", ".txt", "x" } );
      if( nm.empty() || nm == "." || nm == ".." || made.count( nm ) ) continue;
      const int k = s.weighted( { 6, 2, 1 } );
      const std::string f = dir + "/" + nm;
      if( k == 0 )
      {
         std::ofstream o { f };
         o << std::string( s.range( 0, 50 ), 'x' );
      }
      else if( k == 1 )
         mkdir( f.c_str(), 0777 );
      else if( symlink( "nowhere", f.c_str() ) )
         continue;
      made[nm] = k;
   }
   const std::string pat = s.pick( std::vector<std::string> { "*", "*.gdx", "a*", "?", "*.*", ".*", "*b*", "[ab]*", "nothing", "a" } );
   const int attr = s.flip() ? su::faAnyFile : s.pick( std::vector<int> { 0, su::faDirectory, su::faHidden, su::faDirectory | su::faHidden, su::faSysFile } );
   std::map<std::string, int> want;
   auto consider = [&]( const std::string &nm, int kind ) {
      if( fnmatch( pat.c_str(), nm.c_str(), 0 ) ) return;
      int a {};
      if( kind == 1 ) a |= su::faDirectory;
      if( kind == 2 ) a |= su::faSysFile;
      if( nm[0] == '.' && nm != "." && nm != ".." ) a |= su::faHidden;
      if( a & ~attr & 30 ) return;
      struct stat st {};
      lstat( ( dir + "/" + nm ).c_str(), &st );
      want[nm] = static_cast<int>( st.st_size );
   };
   for( auto &e: made ) consider( e.first, e.second );
   consider( ".", 1 );
   consider( "..", 1 );
   std::map<std::string, int> got;
   {
      su::TSearchRec f;
      int rc = su::FindFirst( dir + "/" + pat, attr, f );
      for( int guard {}; rc == 0 && guard < 100; guard++ )
      {
         c.check( !got.count( f.Name ), "file " + q( f.Name ) + " found twice" );
         got[f.Name] = f.Size;
         c.check( f.Attr == ( f.Attr | ( made.count( f.Name ) && made[f.Name] == 1 ? su::faDirectory : 0 ) ), "directory attribute of " + q( f.Name ) );
         rc = su::FindNext( f );
      }
      c.check( rc != 0, "search does not end" );
   }
   std::string list;
   for( auto &e: made ) list += q( e.first ) + ( e.second ? "(" + std::to_string( e.second ) + ") " : " " );
   c.desc = "pattern " + q( pat ) + " attr " + std::to_string( attr ) + " among " + list;
   for( auto &e: want ) c.check( got.count( e.first ) && got[e.first] == e.second, "pattern " + q( pat ) + " does not find " + q( e.first ) );
   for( auto &e: got ) c.check( want.count( e.first ), "pattern " + q( pat ) + " finds " + q( e.first ) );
   // existence, renaming and removal agree with the directory
   for( auto &e: made )
   {
      const std::string f = dir + "/" + e.first;
      c.check( su::FileExists( f ) == ( e.second != 2 ), "FileExists of " + q( e.first ) );
      c.check( su::DirectoryExists( f ) == ( e.second == 1 ), "DirectoryExists of " + q( e.first ) );
      c.check( ( su::FileAge( f ) != -1 ) == ( e.second != 2 ), "FileAge of " + q( e.first ) );
   }
   if( !made.empty() && made.begin()->second == 0 )
   {
      const std::string a = dir + "/" + made.begin()->first, b = c.path( "moved" );
      c.check( su::RenameFile( a, b ) && !su::FileExists( a ) && su::FileExists( b ), "RenameFile" );
      c.check( su::DeleteFileFromDisk( b ) && !su::FileExists( b ), "DeleteFileFromDisk" );
      c.check( !su::DeleteFileFromDisk( b ), "deleting a missing file succeeds" );
   }
   const std::string nd = c.path( "nd" );
   c.check( su::CreateDir( nd ) && su::DirectoryExists( nd ) && !su::CreateDir( nd ) && su::RemoveDir( nd ) && !su::DirectoryExists( nd ), "CreateDir and RemoveDir" );
   if( want.size() >= 2 ) c.nontrivial = true;
}

VP_PROP( C28, environment, "a variable is changed more than once or is long", 36000, 60000 )
{
   namespace pu = rtl::p3utils;
   std::map<std::string, std::string> model;
   const std::vector<std::string> names { "VP_E1", "VP_E2", "VP_E3" };
   for( auto &n: names ) unsetenv( n.c_str() );
   int changes {};
   auto val = [&] { return s.chance( 1, 5 ) ? std::string( s.range( 200, 700 ), 'v' ) + "z" : "/" + genText( s, 5, "ab/" ) + ( s.chance( 1, 3 ) ? ":/" + genText( s, 3, "ab" ) : "" ); };
   for( int n = s.size( 12 ); n > 0; n-- )
   {
      const std::string nm = s.pick( names );
      switch( s.range( 0, 5 ) )
      {
         case 0:
         {
            const std::string v = val();
            c.check( s.flip() ? pu::P3SetEnv( nm, v ) : pu::P3SetEnvPC( nm, v.c_str() ), "P3SetEnv fails" );
            model[nm] = v;
            break;
         }
         case 1:
         {
            const std::string v = val();
            c.check( su::AssignEnvironmentVariable( nm, v ) == 0, "AssignEnvironmentVariable fails" );
            model[nm] = v;
            break;
         }
         case 2:
            pu::P3UnSetEnv( nm );
            model.erase( nm );
            break;
         case 3:
            su::DropEnvironmentVariable( nm );
            model.erase( nm );
            break;
         default:
         {
            // the directory becomes the first of the list, unless it is already
            const std::string d = "/" + genText( s, 3, "ab" );
            c.check( pu::PrefixEnv( d, nm ), "PrefixEnv fails" );
            if( !model.count( nm ) ) model[nm] = d;
            else if( model[nm] != d && model[nm].compare( 0, d.size() + 1, d + ":" ) != 0 )
               model[nm] = d + ":" + model[nm];
            c.log( "prefix " + nm + " with " + d );
         }
      }
      changes++;
      for( auto &m: names )
      {
         const bool has = model.count( m );
         const std::string v = has ? model[m] : "";
         const char *g = getenv( m.c_str() );
         c.check( ( g != nullptr ) == has && ( !has || v == g ), "variable " + m + " is " + q( g ? g : "(unset)" ) + " instead of " + q( v ) );
         c.check( pu::P3IsSetEnv( m ) == has, "P3IsSetEnv" );
         c.check( pu::P3GetEnv( m ) == v, "P3GetEnv gives " + q( pu::P3GetEnv( m ) ) );
         c.check( su::QueryEnvironmentVariable( m ) == v.substr( 0, 255 ), "QueryEnvironmentVariable" );
         std::array<char, 64> buf;
         buf.fill( '#' );
         const uint32_t bs = s.range( 1, 64 );
         const uint32_t r = pu::P3GetEnvPC( m, buf.data(), bs );
         if( has && v.size() < bs ) c.check( r == v.size() && v == buf.data(), "P3GetEnvPC returns " + std::to_string( r ) );
         else if( has )
            c.check( r > v.size() || r == v.size() + 1, "P3GetEnvPC does not tell the size needed: " + std::to_string( r ) );
         else
            c.check( r == 0, "P3GetEnvPC finds an unset variable" );
      }
   }
   const char *pathBefore = getenv( "PATH" );
   const std::string old = pathBefore ? pathBefore : "";
   const std::string np = s.flip() ? "/usr/bin:/bin" : "/usr/bin:/bin:/" + std::string( s.range( 200, 400 ), 'p' );
   setenv( "PATH", np.c_str(), 1 );
   const bool okp = pu::PrefixPath( "/vp/x" );
   const std::string after = getenv( "PATH" );
   setenv( "PATH", old.c_str(), 1 );
   c.check( okp && after == "/vp/x:" + np, "PrefixPath gives " + q( after ) );
   if( changes > 2 ) c.nontrivial = true;
}

VP_PROP( C28, lines, "a line longer than the reading buffer", 19200, 32000 )
{
   // lines of any length are read whole and in order
   const std::string fn = c.path( "t" );
   std::string all;
   std::vector<std::string> ls;
   bool longLine {};
   for( int n = s.range( 0, 8 ); n > 0; n-- )
   {
      const int len = s.weighted( { 3, 2, 1 } ) == 0 ? s.range( 0, 20 ) : s.flip() ? s.range( 505, 520 ) : s.range( 0, 2000 );
      std::string l( len, static_cast<char>( 'a' + s.range( 0, 25 ) ) );
      if( len > 511 ) longLine = true;
      if( n > 1 || s.flip() ) l += '\n';
      if( l.empty() ) continue;
      ls.push_back( l );
      all += l;
   }
   utils::spit( fn, all );
   c.check( utils::slurp( fn ) == all, "slurp differs from what spit wrote" );
   for( int flavour {}; flavour < 2; flavour++ )
   {
      FILE *f = fopen( fn.c_str(), "rb" );
      std::string got, l;
      for( size_t i {}; i < ls.size(); i++ )
      {
         if( flavour ) utils::getline( f, l );
         else
            l = utils::getline( f );
         c.check( l == ls[i], "line " + std::to_string( i ) + " read with length " + std::to_string( l.size() ) + " instead of " + std::to_string( ls[i].size() ) );
      }
      l = utils::getline( f );
      c.check( l.empty(), "a line after the last one" );
      fclose( f );
   }
   std::ifstream is { fn };
   for( auto &w: ls ) c.check( utils::getLineWithSep( is ) == w, "getLineWithSep" );
   c.desc = std::to_string( ls.size() ) + " lines";
   if( longLine ) c.nontrivial = true;
}
