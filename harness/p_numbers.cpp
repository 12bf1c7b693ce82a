// C25: number <-> text conversions against the C runtime and small grammar references.
#include "core.hpp"

#include "gdlib/dblutil.hpp"
#include "gdlib/strutilx.hpp"
#include "gdlib/utils.hpp"
#include "rtl/p3utils.hpp"
#include "rtl/sysutils_p3.hpp"
#include <cfloat>
#include <climits>
#include <cmath>

using namespace vp;
namespace sx = gdlib::strutilx;
namespace su = rtl::sysutils_p3;

namespace
{
double bitsToD( uint64_t b )
{
   double d;
   memcpy( &d, &b, 8 );
   return d;
}
uint64_t dToBits( double d )
{
   uint64_t b;
   memcpy( &b, &d, 8 );
   return b;
}
double nudge( double d, int n )
{
   for( ; n > 0; n-- ) d = std::nextafter( d, INFINITY );
   for( ; n < 0; n++ ) d = std::nextafter( d, -INFINITY );
   return d;
}
// finite doubles; decimal boundaries and rounding ties of the 15 digit printing are frequent
double genD( Src &s )
{
   char b[64];
   double d {};
   switch( s.weighted( { 3, 4, 4, 4, 3, 3, 2, 2, 3 } ) )
   {
      case 0: d = s.range( 0, 1000 ); break;
      case 1: d = s.range( 0, 99999 ) * std::pow( 10.0, s.range( -8, 8 ) ); break;
      case 2:
         snprintf( b, sizeof b, "1e%d", s.range( -310, 308 ) );
         d = nudge( strtod( b, nullptr ), s.range( -3, 3 ) );
         break;
      case 3:
      {
         // sixteen or seventeen digits, often ending on a tie or a run of nines
         int64_t m = static_cast<int64_t>( s.bits64() % 900000000000000ULL ) + 100000000000000LL;
         if( s.chance( 1, 4 ) ) m = 999999999999999LL - s.range( 0, 12 );
         snprintf( b, sizeof b, "%lld%d%de%d", (long long) m, s.pick( std::vector<int> { 5, 4, 6, 9, 0, 1 } ), s.range( 0, 9 ),
                   s.chance( 2, 3 ) ? s.range( -24, 3 ) : s.range( -320, 291 ) );
         d = nudge( strtod( b, nullptr ), s.range( -2, 2 ) );
         break;
      }
      case 4: d = bitsToD( s.bits64() & 0x7fffffffffffffffULL ); break;
      case 5: d = std::ldexp( 1.0, s.range( -1074, 1023 ) ); break;
      case 6: d = bitsToD( s.bits64() >> s.range( 12, 63 ) ); break;// denormals
      case 7: d = s.pick( std::vector<double> { DBL_MAX, DBL_MIN, DBL_EPSILON, 0.0, 1e-4, 1e15, 9.99999999999999e14, 999999999999999.9, 99999999999999.99, 0.0001, 0.00009999999999999999, 2147483648.0, 4294967296.0 } ); break;
      default:
         snprintf( b, sizeof b, "%d.%0*de%d", s.range( 0, 9 ), s.range( 1, 9 ), s.range( 0, 999999 ), s.range( -20, 20 ) );
         d = strtod( b, nullptr );
   }
   if( !std::isfinite( d ) ) d = 1.5;
   return s.chance( 1, 3 ) ? -d : d;
}
int64_t genI( Src &s )
{
   switch( s.weighted( { 4, 3, 3, 2, 2, 2 } ) )
   {
      case 0: return s.range( -200, 200 );
      case 1:
      {
         int64_t p = 1;
         for( int i = s.range( 0, 18 ); i > 0; i-- ) p *= 10;
         p += s.range( -1, 1 );
         return s.flip() ? -p : p;
      }
      case 2:
      {
         const int64_t p = static_cast<int64_t>( ( uint64_t { 1 } << s.range( 0, 63 ) ) + static_cast<uint64_t>( s.range( -1, 1 ) ) );
         return s.flip() && p != INT64_MIN ? -p : p;
      }
      case 3: return static_cast<int64_t>( s.bits64() );
      case 4: return static_cast<int64_t>( s.bits64() ) >> s.range( 0, 60 );
      default: return s.pick( std::vector<int64_t> { INT64_MIN, INT64_MAX, INT_MIN, INT_MAX, 0, -1, INT64_MIN + 1 } );
   }
}
std::string fmt15( double d )
{
   char b[64];
   snprintf( b, sizeof b, "%.14e", d );
   return b;
}
bool isNumber( const std::string &t, char sep )
{
   size_t i {};
   auto digs = [&] { size_t n {}; while( i < t.size() && isdigit( (unsigned char) t[i] ) ) i++, n++; return n; };
   if( i < t.size() && t[i] == '-' ) i++;
   if( !digs() ) return false;
   if( i < t.size() && t[i] == sep )
   {
      i++;
      if( !digs() ) return false;
   }
   if( i < t.size() && t[i] == 'E' )
   {
      i++;
      if( i < t.size() && t[i] == '-' ) i++;
      if( !digs() ) return false;
   }
   return i == t.size();
}
int sigDigits( const std::string &t )
{
   std::string d;
   for( char ch: t )
   {
      if( ch == 'E' ) break;
      if( isdigit( (unsigned char) ch ) ) d += ch;
   }
   size_t a = d.find_first_not_of( '0' ), z = d.find_last_not_of( '0' );
   return a == std::string::npos ? 0 : static_cast<int>( z - a + 1 );
}
// reference for the grammar of decimal numbers: blanks, sign, digits with optional point, exponent
bool refReal( const std::string &t, double &v )
{
   size_t i {};
   while( i < t.size() && t[i] == ' ' ) i++;
   const size_t st = i;
   if( i < t.size() && ( t[i] == '+' || t[i] == '-' ) ) i++;
   size_t n {}, m {};
   while( i < t.size() && isdigit( (unsigned char) t[i] ) ) i++, n++;
   bool point {};
   if( i < t.size() && t[i] == '.' )
   {
      point = true;
      i++;
      while( i < t.size() && isdigit( (unsigned char) t[i] ) ) i++, m++;
   }
   if( !n && !point ) return false;
   const size_t mEnd = i;
   if( i < t.size() && ( t[i] == 'e' || t[i] == 'E' ) )
   {
      i++;
      if( i < t.size() && ( t[i] == '+' || t[i] == '-' ) ) i++;
      size_t k {};
      while( i < t.size() && isdigit( (unsigned char) t[i] ) ) i++, k++;
      if( !k ) return false;
   }
   if( i != t.size() ) return false;
   v = n + m ? strtod( t.substr( st ).c_str(), nullptr ) : 0.0;
   (void) mEnd;
   return true;
}
// 0: not an integer, 1: integer in range, 2: decimal integer that does not fit
int refInt( const std::string &t, int &v )
{
   size_t i {};
   while( i < t.size() && t[i] == ' ' ) i++;
   bool neg {};
   if( i < t.size() && ( t[i] == '+' || t[i] == '-' ) ) neg = t[i++] == '-';
   std::string d = t.substr( i );
   bool hex {};
   if( !d.empty() && d[0] == '$' ) hex = true, d = d.substr( 1 );
   else if( d.size() > 1 && d[0] == '0' && ( d[1] == 'x' || d[1] == 'X' ) )
      hex = true, d = d.substr( 2 );
   if( d.empty() ) return 0;
   for( char ch: d )
      if( hex ? !isxdigit( (unsigned char) ch ) : !isdigit( (unsigned char) ch ) ) return 0;
   while( d.size() > 1 && d[0] == '0' ) d.erase( 0, 1 );
   if( d.size() > 12 ) return 2;
   int64_t x = strtoll( d.c_str(), nullptr, hex ? 16 : 10 );
   if( neg ) x = -x;
   if( hex ? ( x < INT_MIN || x > UINT_MAX ) : ( x < INT_MIN || x > INT_MAX ) ) return 2;
   v = static_cast<int>( x );
   return 1;
}
std::string genNumText( Src &s )
{
   std::string t;
   if( s.chance( 1, 4 ) ) t += std::string( s.range( 1, 3 ), ' ' );
   if( s.chance( 1, 3 ) ) t += s.flip() ? '-' : '+';
   auto digs = [&]( int lo, int hi ) { for( int n = s.range( lo, hi ); n > 0; n-- ) t += static_cast<char>( '0' + s.range( 0, 9 ) ); };
   switch( s.weighted( { 6, 2, 2, 1 } ) )
   {
      case 0:
         digs( 0, s.chance( 1, 10 ) ? 40 : 12 );
         if( s.flip() ) { t += '.'; digs( 0, s.chance( 1, 10 ) ? 40 : 10 ); }
         if( s.chance( 1, 3 ) )
         {
            t += s.flip() ? 'e' : 'E';
            if( s.flip() ) t += s.flip() ? '-' : '+';
            digs( 0, 3 );
         }
         break;
      case 1:
         t += s.flip() ? "$" : s.flip() ? "0x" : "0X";
         for( int n = s.range( 0, 9 ); n > 0; n-- ) t += "0123456789abcdefABCDEFg"[s.range( 0, 22 )];
         break;
      case 2: t += s.pick( std::vector<std::string> { "inf", "nan", "NaN", "Infinity", "0x1p3", "1e", "1e+", ".", "", "e5", ".e5", "1d5", "2D-3", "0", "-0", "00012", "maxint", "eps", "1 ", "--1", "2147483647", "2147483648", "4294967296", "2147483647.0", "2.147483647e9", "21474836470e-1", "2147483646.0", "2147483646.5", "2147483648.0", "2147483649.0", "2147483649", "-2147483648", "-2147483648.0", "-2147483649.0", "-2147483649", "-2.147483648E9", "0.0", "-0.0", "99999999999999999999999", "1e400", "1e-400" } ); break;
      default:
         for( int n = s.range( 0, 400 ); n > 0; n-- ) t += static_cast<char>( '0' + s.range( 0, 9 ) );
   }
   if( s.chance( 1, 6 ) && !t.empty() )// spoil one place
   {
      const int p = s.range( 0, static_cast<int>( t.size() ) - 1 );
      t[p] = " .-+eExX$5\t,_abZ"[s.range( 0, 15 )];
   }
   return t;
}
}// namespace

VP_PROP( C25, dbltext, "the value needs rounding to 15 digits or scientific notation", 72000, 300000 )
{
   for( int it {}; it < 8; it++ )
   {
      const double d = genD( s );
      const char sep = s.chance( 1, 4 ) ? ',' : '.';
      const std::string t = sep == '.' && s.flip() ? sx::DblToStr( d ) : sx::DblToStrSep( d, sep );
      c.log( hexd( d ) + " -> " + q( t ) );
      const double exp15 = strtod( fmt15( d ).c_str(), nullptr );
      c.check( isNumber( t, sep ), "not a number text: " + q( t ) + " for " + fmt15( d ) );
      std::string u = t;
      for( char &ch: u )
         if( ch == sep ) ch = '.';
      // values whose 15 digit decimal overflows cannot be read back by anybody
      const bool over = !std::isfinite( exp15 );
      if( !over )
      {
         c.check( strtod( u.c_str(), nullptr ) == exp15, "printed text " + q( t ) + " is not the value rounded to 15 digits " + fmt15( d ) );
         double back {};
         c.check( sx::StrAsDoubleEx( u, back ), "library cannot parse its own text " + q( u ) );
         c.check( back == exp15, "library reads its own text " + q( u ) + " as " + hexd( back ) );
      }
      c.check( sigDigits( u ) <= 15, "more than 15 digits: " + q( t ) );
      c.check( u == "0" || ( u.back() != '.' && !( u.find( '.' ) != std::string::npos && u.find( 'E' ) == std::string::npos && u.back() == '0' ) ), "useless zeros in " + q( t ) );
      const double a = std::fabs( d );
      if( a == 0.0 || ( a >= 1e-4 && exp15 && std::fabs( exp15 ) < 1e15 ) ) c.check( u.find( 'E' ) == std::string::npos, "scientific text for a value of ordinary size: " + q( t ) );
      if( a != 0.0 && ( std::fabs( exp15 ) < 1e-4 || a >= 1e15 ) ) c.check( u.find( 'E' ) != std::string::npos, "plain text for a value outside the ordinary range: " + q( t ) );
      // buffer flavour
      std::array<char, 256> buf;
      buf.fill( '#' );
      const int n = sep == '.' && s.flip() ? sx::DblToStr( d, buf.data() ) : sx::DblToStrSep( d, sep, buf.data() );
      buf[255] = 0;
      c.check( std::string( buf.data() ) == t, "buffer flavour printed " + q( buf.data() ) + " instead of " + q( t ) );
      c.check( n == static_cast<int>( t.size() ), "buffer flavour returned length " + std::to_string( n ) + " for " + q( t ) );
      c.check( su::FloatToStr( d ) == sx::DblToStr( d ), "FloatToStr gives " + q( su::FloatToStr( d ) ) + " for " + q( t ) );
      if( exp15 != d || u.find( 'E' ) != std::string::npos ) c.nontrivial = true;
   }
}

VP_PROP( C25, dblhex, "a denormal, a value with all mantissa digits or a special value", 36000, 120000 )
{
   for( int it {}; it < 8; it++ )
   {
      double d = genD( s );
      if( s.chance( 1, 10 ) ) d = s.pick( std::vector<double> { INFINITY, -INFINITY, -0.0, bitsToD( 0x7ff8000000000001ULL ) } );
      const std::string h = gdlib::dblutil::dblToStrHex( d ), e = gdlib::dblutil::dblToStrHexponential( d );
      c.log( hexd( d ) + " -> " + h + " " + e );
      char b[64];
      snprintf( b, sizeof b, "0x%016llx", (unsigned long long) dToBits( d ) );
      c.check( h == b, "hex text " + q( h ) + " instead of " + q( b ) );
      char *end;
      const double back = strtod( e.c_str(), &end );
      c.check( !*end, "hexponential text not fully readable: " + q( e ) );
      c.check( std::isnan( d ) ? std::isnan( back ) : dToBits( back ) == dToBits( d ), "hexponential text " + q( e ) + " reads back as " + hexd( back ) );
      if( !std::isnormal( d ) || ( dToBits( d ) & 15 ) ) c.nontrivial = true;
   }
}

VP_PROP( C25, parse, "the text is a number with at least two parts, or nearly one", 144000, 600000 )
{
   for( int it {}; it < 8; it++ )
   {
      const std::string t = genNumText( s );
      c.log( q( t ) );
      double v {}, rv {};
      int code { -77 };
      const bool ok = refReal( t, rv );
      utils::val( t, v, code );
      c.check( code != -77, "val() left its result code alone for " + q( t ) );
      c.check( ( code == 0 ) == ok, std::string( "val() " ) + ( ok ? "refuses" : "accepts" ) + " the text " + q( t ) + " code " + std::to_string( code ) );
      if( ok ) c.check( v == rv, "val(" + q( t ) + ") = " + hexd( v ) + " instead of " + hexd( rv ) );
      else
         c.check( code >= 1 && code <= static_cast<int>( t.size() ) + 1, "val() reports position " + std::to_string( code ) + " in " + q( t ) );
      {
         // the part of a longer text
         const int extra = s.range( 0, 3 );
         const std::string longer = t + std::string( "123" ).substr( 0, extra );
         double v2 {};
         int code2 {};
         utils::val( longer.c_str(), static_cast<int>( t.size() ), v2, code2 );
         c.check( code2 == code && ( code || v2 == v ), "val() of the first " + std::to_string( t.size() ) + " characters of " + q( longer ) + " differs" );
      }
      int iv {}, ri {};
      code = -77;
      const int k = refInt( t, ri );
      utils::val( t, iv, code );
      c.check( ( code == 0 ) == ( k == 1 ), std::string( "integer val() " ) + ( k == 1 ? "refuses " : "accepts " ) + q( t ) + ( k == 2 ? " which does not fit" : "" ) );
      if( k == 1 ) c.check( iv == ri, "integer val(" + q( t ) + ") = " + std::to_string( iv ) + " instead of " + std::to_string( ri ) );
      else
         c.check( code >= 1 && code <= static_cast<int>( t.size() ) + 1, "integer val() reports position " + std::to_string( code ) + " in " + q( t ) );
      {
         const int extra = s.range( 0, 3 );
         const std::string longer = t + std::string( "123" ).substr( 0, extra );
         int v2 {}, code2 {};
         utils::val( longer.c_str(), static_cast<int>( t.size() ), v2, code2 );
         c.check( code2 == code && ( code || v2 == iv ), "integer val() of the first " + std::to_string( t.size() ) + " characters of " + q( longer ) + " differs" );
      }
      // extended forms: Fortran exponents and names
      auto low = []( std::string x ) { for( char &ch: x ) ch = static_cast<char>( tolower( (unsigned char) ch ) ); return x; };
      std::string u = t;
      for( char &ch: u )
         if( ch == 'd' || ch == 'D' ) ch = 'E';
      double dv {}, ed {};
      bool eok = refReal( u, ed ) && std::isfinite( ed );
      if( low( t ) == "eps" ) eok = true, ed = DBL_EPSILON;
      if( low( t ) == "maxdouble" ) eok = true, ed = DBL_MAX;
      if( low( t ) == "mindouble" ) eok = true, ed = DBL_MIN;
      c.check( sx::StrAsDoubleEx( t, dv ) == eok, "StrAsDoubleEx wrong verdict on " + q( t ) );
      if( eok ) c.check( dv == ed, "StrAsDoubleEx(" + q( t ) + ") = " + hexd( dv ) + " instead of " + hexd( ed ) );
      int xv {};
      bool iok = k == 1;
      int ei = ri;
      if( low( t ) == "maxint" ) iok = true, ei = INT_MAX;
      if( low( t ) == "minint" ) iok = true, ei = INT_MIN;
      c.check( sx::StrAsIntEx( t, xv ) == iok, "StrAsIntEx wrong verdict on " + q( t ) );
      if( iok ) c.check( xv == ei, "StrAsIntEx value for " + q( t ) );
      c.check( sx::StrAsInt( t ) == ( k == 1 ? ri : 0 ), "StrAsInt value for " + q( t ) );
      bool iok2 = iok;
      if( !iok && eok && ed >= INT_MIN && ed <= INT_MAX && ed == std::trunc( ed ) ) iok2 = true, ei = static_cast<int>( ed );
      c.check( sx::StrAsIntEx2( t, xv ) == iok2, "StrAsIntEx2 wrong verdict on " + q( t ) );
      if( iok2 ) c.check( xv == ei, "StrAsIntEx2 value for " + q( t ) );
      if( t.size() > 3 ) c.nontrivial = true;
   }
}

VP_PROP( C25, exactparse, "more than 15 digits", 36000, 120000 )
{
   // texts in any precision and shape read as the nearest double, as the C runtime does
   for( int it {}; it < 8; it++ )
   {
      const double d = genD( s );
      const int p = s.range( 0, 20 );
      std::array<char, 512> b;
      snprintf( b.data(), b.size(), s.flip() ? "%.*e" : "%.*g", p, d );
      std::string t { b.data() };
      const double r = strtod( t.c_str(), nullptr );
      if( s.chance( 1, 3 ) )
         for( char &ch: t )
            if( ch == 'e' ) ch = "EdD"[s.range( 0, 2 )];
      double v {};
      const bool ok = sx::StrAsDoubleEx( t, v );
      c.log( q( t ) );
      c.check( ok == std::isfinite( r ), "verdict on " + q( t ) );
      if( ok ) c.check( dToBits( v ) == dToBits( r ), q( t ) + " read as " + hexd( v ) + " instead of " + hexd( r ) );
      if( ok && p >= 17 ) c.check( v == d, "full precision text does not give the number back: " + q( t ) );
      if( p > 15 ) c.nontrivial = true;
   }
}

VP_PROP( C25, ints, "a value with a group separator or beyond 32 bits", 48000, 160000 )
{
   for( int it {}; it < 8; it++ )
   {
      const int64_t n = genI( s );
      const std::string t = std::to_string( n );
      c.log( t );
      c.check( su::IntToStr( n ) == t, "IntToStr gives " + q( su::IntToStr( n ) ) );
      std::array<char, 256> buf;
      size_t len {};
      su::IntToStr( n, buf.data(), len );
      c.check( len == t.size() && t == buf.data(), "IntToStr into a buffer gives " + q( buf.data() ) );
      c.check( su::StrToInt64( t ) == n, "StrToInt64(" + q( t ) + ") = " + std::to_string( su::StrToInt64( t ) ) );
      c.check( su::StrToInt64( std::string( s.range( 0, 3 ), ' ' ) + t ) == n, "StrToInt64 with blanks" );
      const bool fits = n >= INT_MIN && n <= INT_MAX;
      c.check( su::StrToInt( t ) == ( fits ? static_cast<int>( n ) : INT_MIN ), "StrToInt(" + q( t ) + ")" );
      // a spoiled text is recognised
      std::string bad = t;
      bad.insert( s.range( t[0] == '-' ? 1 : 0, static_cast<int>( t.size() ) ), 1, ".x,$e_"[s.range( 0, 5 )] );
      if( bad[0] != '$' ) c.check( su::StrToInt64( bad ) == INT64_MIN, "StrToInt64 accepts " + q( bad ) );
      // hexadecimal
      char hb[40];
      snprintf( hb, sizeof hb, "%llX", (unsigned long long) n );
      const int w = s.range( 0, 40 );
      std::string eh = hb;
      if( w <= 32 && static_cast<int>( eh.size() ) < w ) eh = std::string( w - eh.size(), '0' ) + eh;
      const std::string h = su::IntToHex( n, w );
      c.check( h == eh, "IntToHex(" + t + "," + std::to_string( w ) + ") = " + q( h ) + " instead of " + q( eh ) );
      if( n >= 0 )
      {
         std::string hh = "$" + h;
         if( s.flip() )
            for( char &ch: hh ) ch = static_cast<char>( tolower( (unsigned char) ch ) );
         c.check( su::StrToInt64( hh ) == n, "StrToInt64(" + q( hh ) + ")" );
      }
      // grouped in thousands, right aligned
      std::string g;
      {
         const std::string dg = t[0] == '-' ? t.substr( 1 ) : t;
         for( size_t i {}; i < dg.size(); i++ )
         {
            if( i && ( dg.size() - i ) % 3 == 0 ) g += ',';
            g += dg[i];
         }
         if( t[0] == '-' ) g = "-" + g;
      }
      c.check( sx::IntToNiceStr( n ) == g, "IntToNiceStr gives " + q( sx::IntToNiceStr( n ) ) + " for " + t );
      const int gw = s.chance( 1, 8 ) ? s.range( 200, 400 ) : s.range( 0, 40 );
      const int tw = std::min( gw, 255 );
      const std::string eg = static_cast<int>( g.size() ) < tw ? std::string( tw - g.size(), ' ' ) + g : g;
      c.check( sx::IntToNiceStrW( n, gw ) == eg, "IntToNiceStrW gives " + q( sx::IntToNiceStrW( n, gw ) ) );
      if( fits )
      {
         const int i = static_cast<int>( n );
         c.check( sx::IntegerWidth( i ) == static_cast<int>( t.size() ), "IntegerWidth(" + t + ") = " + std::to_string( sx::IntegerWidth( i ) ) );
         const int ww = s.range( 0, 30 );
         const std::string ew = static_cast<int>( t.size() ) < ww ? std::string( ww - t.size(), '*' ) + t : t;
         c.check( utils::IntToStrW( i, ww, '*' ) == ew, "IntToStrW gives " + q( utils::IntToStrW( i, ww, '*' ) ) );
         c.check( utils::strInflateWidth( i, ww, '*' ) == ew, "strInflateWidth gives " + q( utils::strInflateWidth( i, ww, '*' ) ) );
         int v {}, code { 5 };
         utils::val( t, v, code );
         c.check( !code && v == i, "val of a printed integer " + t );
         if( i > 0 )
         {
            // columns named A, B, ..., Z, AA, AB, ...
            std::string col;
            for( int64_t x = i; x; x = ( x - 1 ) / 26 ) col.insert( col.begin(), static_cast<char>( 'A' + ( x - 1 ) % 26 ) );
            c.check( sx::ExcelColStr( i ) == col, "column " + t + " is named " + q( sx::ExcelColStr( i ) ) + " instead of " + q( col ) );
            c.check( sx::StrExcelCol( col ) == i, "column " + q( col ) + " has number " + std::to_string( sx::StrExcelCol( col ) ) );
         }
         else
            c.check( sx::ExcelColStr( i ).empty(), "column name for " + t );
      }
      if( n > 999 || n < -999 ) c.nontrivial = true;
   }
   // column names that stand for no number
   std::string col;
   for( int n = s.range( 0, 9 ); n > 0; n-- ) col += s.chance( 1, 12 ) ? "1 $-"[s.range( 0, 3 )] : static_cast<char>( ( s.flip() ? 'A' : 'a' ) + s.range( 0, 25 ) );
   int64_t x {};
   bool ok = true;
   for( char ch: col )
   {
      if( !isalpha( (unsigned char) ch ) ) ok = false;
      else if( x <= INT_MAX ) x = x * 26 + ( toupper( ch ) - 'A' + 1 );
   }
   if( x > INT_MAX ) ok = false;
   c.check( sx::StrExcelCol( col ) == ( ok ? x : 0 ), "column " + q( col ) + " has number " + std::to_string( sx::StrExcelCol( col ) ) );
}

VP_PROP( C25, rounding, "the value is changed by the rounding", 36000, 120000 )
{
   for( int it {}; it < 8; it++ )
   {
      const int k = s.range( -6, 10 );
      const double x = s.flip() ? s.range( -1000000, 1000000 ) / std::pow( 10.0, s.range( 0, 8 ) ) : s.range( -2000000000, 2000000000 ) / 7.0;
      const double r = gdlib::dblutil::gdRoundTo( x, k );
      const double unit = std::pow( 10.0, -k );
      c.log( hexd( x ) + " to " + std::to_string( k ) + " -> " + hexd( r ) );
      c.check( std::fabs( r - x ) <= 0.5 * unit * ( 1 + 1e-9 ) + std::fabs( x ) * 1e-14, "rounding " + fmt15( x ) + " to " + std::to_string( k ) + " digits gives " + fmt15( r ) );
      const double m = r / unit;
      c.check( std::fabs( m - std::nearbyint( m ) ) <= std::max( 1.0, std::fabs( m ) ) * 1e-12, "not a multiple: " + fmt15( r ) );
      c.check( gdlib::dblutil::gdRoundTo( -x, k ) == -r || x == 0, "rounding is not symmetric at " + fmt15( x ) );
      if( r != x ) c.nontrivial = true;
   }
}

VP_PROP( C25, efmt, "the digits shown are fewer than the value has", 36000, 120000 )
{
   for( int it {}; it < 8; it++ )
   {
      double d = genD( s );
      if( std::fabs( d ) < DBL_MIN ) d = 0;// subnormal numbers: see efmt_tiny
      const int width = s.range( 6, 26 ), dec = s.range( 0, 18 );
      const std::string t = rtl::p3utils::p3FloatToEfmt( d, width, dec );
      c.log( hexd( d ) + " w=" + std::to_string( width ) + " d=" + std::to_string( dec ) + " -> " + q( t ) );
      c.check( static_cast<int>( t.size() ) <= std::max( width, 6 ) + 1, "wider than asked: " + q( t ) );
      if( t[0] == '*' ) continue;
      const size_t pE = t.find( 'E' ), pp = t.find( '.' );
      c.check( pE != std::string::npos, "no exponent: " + q( t ) );
      const int shown = pp == std::string::npos ? 0 : static_cast<int>( pE - pp - 1 );
      std::array<char, 128> b;
      snprintf( b.data(), b.size(), "%.*e", std::min( shown, 17 ), d );
      char *end;
      const double v = strtod( t.c_str(), &end ), r = strtod( b.data(), nullptr );
      c.check( !*end, "unreadable: " + q( t ) );
      if( std::isfinite( r ) && std::isfinite( v ) ) // the shortest text of the same double is as good
      {
         // just below 1E-99 one digit less fits: the value shown is rounded with that digit less
         snprintf( b.data(), b.size(), "%.*e", std::max( 0, std::min( shown, 17 ) - 1 ), d );
         const double r1 = strtod( b.data(), nullptr );
         const bool edge = v == r1 && ( std::fabs( v ) == 1e-99 || std::fabs( v ) == 1e100 );
         snprintf( b.data(), b.size(), "%.*e", std::min( shown, 17 ), d );
         c.check( v == r || v == d || edge, "shows " + q( t ) + " for " + q( b.data() ) );
      }
      if( r != d ) c.nontrivial = true;
   }
}

VP_PROP( C25, efmt_tiny, "every case", 1, 1 )
{
   const double d = 42 * 4.9406564584124654e-324;
   const std::string t = rtl::p3utils::p3FloatToEfmt( d, 20, 2 );
   c.nontrivial = true;
   c.desc = "a subnormal number in exponent format";
   c.check( strtod( t.c_str(), nullptr ) == strtod( "2.08e-322", nullptr ), "2.075E-322 is shown as " + q( t ) );
}
