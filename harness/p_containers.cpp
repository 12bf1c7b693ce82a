// C23: histories on every container against plain models (std::vector, std::map, stable_sort).
#include "core.hpp"

#include "gdlib/gmsstrm.hpp"
#include "gdlib/datastorage.hpp"
#include "gdlib/gmsdata.hpp"
#include "gdlib/gmsobj.hpp"
#include "gdlib/strhash.hpp"
#include <memory>
#include <numeric>

using namespace vp;
using namespace gdlib;

namespace
{
std::string up( std::string s )
{
   for( auto &ch: s )
      if( ch >= 'a' && ch <= 'z' ) ch = static_cast<char>( ch - 32 );
   return s;
}
int icmp( const std::string &a, const std::string &b ) { return up( a ).compare( up( b ) ); }

std::string randCase( Src &s, std::string t )
{
   for( auto &ch: t )
      if( ( ( ch >= 'a' && ch <= 'z' ) || ( ch >= 'A' && ch <= 'Z' ) ) && s.flip() ) ch ^= 32;
   return t;
}
// names over a small alphabet so that equal names, case variants and prefixes are frequent
std::string genName( Src &s, bool allowEmpty = false, bool asciiOnly = false )
{
   static const char small[] = "abcABCxyz019_";
   static const char punct[] = "@[`{~!'\" -.";
   switch( s.weighted( { 8, 4, 2, 1 } ) )
   {
      case 0:
      {
         std::string r;
         const int n = s.range( allowEmpty ? 0 : 1, 3 );
         for( int i {}; i < n; i++ ) r += small[s.range( 0, 5 )];
         return r;
      }
      case 1:
      {
         std::string r;
         const int n = s.range( 1, 12 );
         for( int i {}; i < n; i++ ) r += small[s.range( 0, 12 )];
         return r;
      }
      case 2:
      {
         std::string r;
         const int n = s.range( 1, 6 );
         for( int i {}; i < n; i++ )
            r += s.flip() ? punct[s.range( 0, 10 )] : asciiOnly ? 'q' : static_cast<char>( s.range( 128, 255 ) );
         return r;
      }
      default:
      {
         const int n = s.range( 13, 255 );
         return std::string( n, small[s.range( 0, 12 )] ) .replace( 0, 1, 1, small[s.range( 0, 12 )] );
      }
   }
}
std::string bulkName( const std::string &pre, int i ) { return pre + std::to_string( i ); }

// ------------------------------------------------------------------ hash list
template<bool CS>
struct HashTypes;
template<>
struct HashTypes<false> { using L = strhash::TXStrHashList<int>; };
template<>
struct HashTypes<true> { using L = strhash::TXCSStrHashList<int>; };

template<bool CS>
void runHash( Src &s, Ctx &c )
{
   using L = typename HashTypes<CS>::L;
   auto key = []( const std::string &n ) { return CS ? n : up( n ); };
   auto l = std::make_unique<L>();
   const int base = s.flip();
   l->OneBased = base;
   std::vector<std::pair<std::string, int>> m;
   std::map<std::string, int> idx;
   int serial {}, streamNr {};
   auto verify = [&]( bool full ) {
      c.check( l->Count() == (int) m.size() && l->size() == (int) m.size() && l->empty() == m.empty(), "Count ", l->Count(), " expected ", m.size() );
      const int n = static_cast<int>( m.size() );
      const int step = full || n < 400 ? 1 : 1 + n / 150;
      for( int i {}; i < n; i += step )
      {
         c.check( m[i].first == l->GetString( i + base ), "GetString(", i + base, ") = ", q( l->GetString( i + base ) ), " expected ", q( m[i].first ) );
         c.check( m[i].first == l->GetName( i + base ), "GetName" );
         c.check( l->GetStringLength( i + base ) == (int) m[i].first.size(), "GetStringLength" );
         c.check( *l->GetObject( i + base ) == m[i].second, "GetObject(", i + base, ") = ", *l->GetObject( i + base ), " expected ", m[i].second );
         c.check( *( *l )[i + base] == m[i].second, "operator[]" );
      }
   };
   const int nops = s.range( 1, s.chance( 1, 8 ) ? 60 : 25 );
   int renames {}, finds {}, big {};
   for( int o {}; o < nops; o++ )
   {
      switch( s.weighted( { 8, 3, 6, 4, 1, 1, 1, 2, 1 } ) )
      {
         case 0:
         {
            auto n = genName( s, true );
            if( !m.empty() && s.chance( 1, 3 ) ) n = randCase( s, s.pick( m ).first );
            const int v = ++serial;
            c.log( "AddObject ", q( n ) );
            const bool plain = s.chance( 1, 6 );
            const int r = plain ? l->Add( n.c_str(), n.size() ) : l->AddObject( n.c_str(), n.size(), v );
            auto it = idx.find( key( n ) );
            int e;
            if( it != idx.end() ) e = it->second;
            else
            {
               e = static_cast<int>( m.size() );
               idx[key( n )] = e;
               m.emplace_back( n, plain ? 0 : v );
            }
            c.check( r == e + base, "Add ", q( n ), " returned ", r, " expected ", e + base );
            break;
         }
         case 1:
         {// StoreObject: the caller promises the name is new
            const auto n = genName( s, true );
            if( idx.count( key( n ) ) ) break;
            const int v = ++serial;
            c.log( "StoreObject ", q( n ) );
            const int r = l->StoreObject( n.c_str(), n.size(), v );
            c.check( r == (int) m.size() + base, "StoreObject returned ", r, " expected ", m.size() + base );
            idx[key( n )] = static_cast<int>( m.size() );
            m.emplace_back( n, v );
            break;
         }
         case 2:
         {
            auto n = genName( s, true );
            if( !m.empty() && s.chance( 2, 3 ) ) n = randCase( s, s.pick( m ).first );
            auto it = idx.find( key( n ) );
            const int e = it == idx.end() ? -1 : it->second + base;
            finds += e >= 0;
            c.log( "IndexOf ", q( n ) );
            c.check( l->IndexOf( n.c_str() ) == e, "IndexOf ", q( n ), " = ", l->IndexOf( n.c_str() ), " expected ", e );
            if( e >= 0 ) c.check( ( *l )[n.c_str()] == m[e - base].second, "operator[name]" );
            break;
         }
         case 3:
         {
            if( m.empty() ) break;
            const int i = s.range( 0, static_cast<int>( m.size() ) - 1 );
            auto n = s.chance( 1, 3 ) ? randCase( s, m[i].first ) : genName( s, true );
            auto it = idx.find( key( n ) );
            if( it != idx.end() && it->second != i ) break;// the caller checks that the new name is free
            c.log( "RenameEntry ", i + base, " ", q( m[i].first ), " -> ", q( n ) );
            l->RenameEntry( i + base, n.c_str() );
            idx.erase( key( m[i].first ) );
            idx[key( n )] = i;
            m[i].first = n;
            renames++;
            c.check( l->IndexOf( n.c_str() ) == i + base, "renamed entry not found under its new name ", q( n ) );
            break;
         }
         case 4:
         {
            int n = s.chance( 1, 3 ) ? s.range( 0, 5000 ) : s.range( 0, 50 );
            c.log( "SetCapacity ", n );
            l->SetCapacity( n );
            c.check( l->GetCapacity() >= n || n <= 0, "capacity" );
            break;
         }
         case 5:
            c.log( "Clear" );
            l->Clear();
            m.clear();
            idx.clear();
            break;
         case 6:
         {// grow over a rehash step
            const auto pre = std::string( 1, "klmn"[s.range( 0, 3 )] ) + std::to_string( s.range( 0, 9 ) ) + "#";
            const int target = s.chance( 1, 12 ) ? s.range( 14990, 15010 ) : s.chance( 1, 2 ) ? s.range( 1490, 1510 ) : s.range( 10, 300 );
            const bool store = s.chance( 1, 3 );
            c.log( "bulk to ", target, " prefix ", pre, store ? " StoreObject" : "" );
            for( int i {}; (int) m.size() < target && i < 20000; i++ )
            {
               auto n = bulkName( pre, i );
               if( idx.count( key( n ) ) ) continue;
               const int v = ++serial;
               const int r = store ? l->StoreObject( n.c_str(), n.size(), v ) : l->AddObject( n.c_str(), n.size(), v );
               c.check( r == (int) m.size() + base, "bulk add ", q( n ), " returned ", r, " expected ", m.size() + base );
               idx[key( n )] = static_cast<int>( m.size() );
               m.emplace_back( n, v );
            }
            big += target > 1490;
            break;
         }
         case 7:
         {
            if( m.empty() ) break;
            const int i = s.range( 0, static_cast<int>( m.size() ) - 1 );
            *l->GetObject( i + base ) = m[i].second = ++serial;
            break;
         }
         case 8:
         {// save and load; the objects are not part of the stream
            const auto fn = c.path( "h" + std::to_string( ++streamNr ) );
            {
               gmsstrm::TMiBufferedStream st { fn, gmsstrm::fmCreate };
               l->SaveToStream( st );
            }
            auto l2 = std::make_unique<L>();
            l2->OneBased = base;
            if( s.flip() ) l2->AddObject( "zzz", 3, 1 );
            int cut = std::numeric_limits<int>::max();
            {
               gmsstrm::TMiBufferedStream st { fn, gmsstrm::fmOpenRead };
               if( s.chance( 1, 4 ) )
               {
                  cut = s.range( 0, static_cast<int>( m.size() ) );
                  static_cast<strhash::TXStrHashList<int> &>( *l2 ).LoadFromStream( st, cut );
               }
               else
                  static_cast<strhash::TXStrHashList<int> &>( *l2 ).LoadFromStream( st );
            }
            c.log( "SaveToStream / LoadFromStream" );
            remove( fn.c_str() );
            l = std::move( l2 );
            if( cut < (int) m.size() ) m.resize( cut );
            idx.clear();
            for( int i {}; i < (int) m.size(); i++ )
            {
               m[i].second = 0;
               idx[key( m[i].first )] = i;
            }
            break;
         }
      }
      verify( false );
   }
   verify( true );
   for( auto &[k, i]: idx ) c.check( l->IndexOf( m[i].first.c_str() ) == i + base, "final IndexOf ", q( m[i].first ) );
   if( big ) c.label( "rehash" );
   if( renames ) c.label( "rename" );
   c.nontrivial = finds > 0 && m.size() >= 3;
   c.desc = std::to_string( nops ) + " ops, " + std::to_string( m.size() ) + " names, " + std::to_string( renames ) + " renames";
}

// ------------------------------------------------------------------ pointer list
struct PList : gmsobj::TXList<int> {
   void setBase( bool b ) { OneBased = b; }
};
}// namespace

VP_PROP( C23, hashlist, "a stored name was looked up and at least 3 names are stored at the end", 9000, 60000 )
{
   if( s.chance( 1, 3 ) ) runHash<true>( s, c );
   else
      runHash<false>( s, c );
}

VP_PROP( C23, ptrlist, "at least one removal from a list of 2 or more", 18000, 120000 )
{
   PList l;
   const int base = s.chance( 1, 3 );
   l.setBase( base );
   static int pool[16];
   std::vector<int *> m;
   int removals {};
   auto verify = [&] {
      c.check( l.GetCount() == (int) m.size() && l.size() == (int) m.size() && l.empty() == m.empty(), "count ", l.GetCount(), " expected ", m.size() );
      for( int i {}; i < (int) m.size(); i++ )
      {
         c.check( l[i + base] == m[i], "item ", i );
         c.check( l.GetConst( i + base ) == m[i], "GetConst ", i );
      }
      c.check( l.GetLast() == ( m.empty() ? nullptr : m.back() ), "GetLast" );
      c.check( l.GetCapacity() >= (int) m.size(), "capacity" );
   };
   const int nops = s.range( 1, 40 );
   for( int o {}; o < nops; o++ )
   {
      int *it = &pool[s.range( 0, 15 )];
      const int n = static_cast<int>( m.size() );
      switch( s.weighted( { 8, 4, 4, 3, 3, 3, 1, 1, 1 } ) )
      {
         case 0:
            c.log( "Add" );
            c.check( l.Add( it ) == n + base, "Add result" );
            m.push_back( it );
            break;
         case 1:
         {
            const int i = s.range( 0, n );
            c.log( "Insert at ", i + base );
            l.Insert( i + base, it );
            m.insert( m.begin() + i, it );
            break;
         }
         case 2:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            c.log( "Delete ", i + base, " of ", n );
            l.Delete( i + base );
            m.erase( m.begin() + i );
            removals += n >= 2;
            break;
         }
         case 3:
         {// removes the last occurrence
            int e = -1;
            for( int i {}; i < n; i++ )
               if( m[i] == it ) e = i;
            c.log( "Remove item at ", e, " of ", n );
            const int r = l.Remove( it );
            c.check( r == ( e < 0 ? -1 : e + base ), "Remove returned ", r, " expected ", e < 0 ? -1 : e + base );
            if( e >= 0 )
            {
               m.erase( m.begin() + e );
               removals += n >= 2;
            }
            break;
         }
         case 4:
         {
            auto f = std::find( m.begin(), m.end(), it );
            c.log( "Extract" );
            int *r = l.Extract( it );
            c.check( r == ( f == m.end() ? nullptr : it ), "Extract result" );
            if( f != m.end() ) m.erase( f ), removals += n >= 2;
            break;
         }
         case 5:
         {
            auto f = std::find( m.begin(), m.end(), it );
            c.check( l.IndexOf( it ) == ( f == m.end() ? -1 : static_cast<int>( f - m.begin() ) + base ), "IndexOf" );
            break;
         }
         case 6:
         {
            const int cap = s.range( 0, 300 );
            c.log( "SetCapacity ", cap );
            l.SetCapacity( cap );
            break;
         }
         case 7:
            c.log( "Clear" );
            l.Clear();
            m.clear();
            break;
         case 8:
         {
            const int k = s.range( 1, s.chance( 1, 5 ) ? 1100 : 140 );
            c.log( "add ", k );
            for( int i {}; i < k; i++ )
            {
               it = &pool[( i * 7 + k ) % 16];
               l.Add( it );
               m.push_back( it );
            }
            break;
         }
      }
      verify();
   }
   c.nontrivial = removals > 0;
   c.desc = std::to_string( nops ) + " ops, " + std::to_string( removals ) + " removals, base " + std::to_string( base );
}

VP_PROP( C23, strings, "at least 2 strings stored and one removed or looked up", 12000, 80000 )
{
   gmsobj::TXStrings l;
   std::vector<std::string> m;
   int looks {};
   const int nops = s.range( 1, 30 );
   for( int o {}; o < nops; o++ )
   {
      const int n = static_cast<int>( m.size() );
      switch( s.weighted( { 8, 3, 4, 1, 1, 1, 1 } ) )
      {
         case 0:
         {
            auto t = genName( s, true );
            c.check( l.Add( t.c_str(), t.size() ) == n, "Add result" );
            m.push_back( t );
            break;
         }
         case 1:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            l.Delete( i );
            m.erase( m.begin() + i );
            looks++;
            break;
         }
         case 2:
         {
            auto t = n && s.flip() ? randCase( s, s.pick( m ) ) : genName( s, true );
            int e = -1;
            for( int i { n - 1 }; i >= 0; i-- )
               if( up( m[i] ) == up( t ) ) e = i;
            c.check( l.IndexOf( t.c_str() ) == e, "IndexOf ", q( t ), " = ", l.IndexOf( t.c_str() ), " expected ", e );
            looks++;
            break;
         }
         case 3:
            l.Clear();
            m.clear();
            break;
         case 4:
            l.SetCapacity( s.range( 0, 200 ) );
            break;
         case 5:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            char *p = l[i];
            c.check( l.Extract( p ) == p, "Extract" );
            delete[] p;
            m.erase( m.begin() + i );
            break;
         }
         case 6:
         {
            const int k = s.range( 1, 150 );
            for( int i {}; i < k; i++ )
            {
               auto t = bulkName( "b", i );
               l.Add( t.c_str(), t.size() );
               m.push_back( t );
            }
            break;
         }
      }
      c.check( l.GetCount() == (int) m.size(), "count" );
      for( int i {}; i < (int) m.size(); i++ ) c.check( m[i] == l[i], "string ", i, " = ", q( l[i] ), " expected ", q( m[i] ) );
   }
   c.nontrivial = looks > 0 && m.size() >= 2;
   c.desc = std::to_string( nops ) + " ops on a string list of " + std::to_string( m.size() );
}

VP_PROP( C23, bits, "some bit was switched off again", 15000, 100000 )
{
   gmsobj::TBooleanBitArray b;
   std::vector<char> m;// m.size()-1 == high index
   const int span = s.weighted( { 4, 3, 2, 1 } );
   const int hi = span == 0 ? 20 : span == 1 ? 300 : span == 2 ? 5000 : 300000;
   int offs {};
   std::vector<int> touched { -1, 0 };
   const int nops = s.range( 1, 60 );
   for( int o {}; o < nops; o++ )
   {
      int n = s.chance( 1, 3 ) && touched.size() > 2 ? s.pick( touched ) + s.range( -1, 1 ) : s.range( -2, hi );
      if( s.chance( 1, 4 ) ) n = ( 8 << s.range( 0, 14 ) ) * s.range( 1, 3 ) + s.range( -1, 1 );// round sizes
      switch( s.weighted( { 8, 6, 1 } ) )
      {
         case 0:
            c.log( "set ", n );
            b.SetBit( n, true );
            if( n >= 0 )
            {
               if( n >= (int) m.size() ) m.resize( n + 1 );
               m[n] = 1;
               touched.push_back( n );
            }
            break;
         case 1:
            c.log( "clear ", n );
            b.SetBit( n, false );
            if( n >= 0 && n < (int) m.size() )
            {
               offs += m[n];
               m[n] = 0;
            }
            break;
         case 2:
            c.log( "high index ", n );
            b.SetHighIndex( n );
            if( n >= (int) m.size() ) m.resize( n + 1 );
            break;
      }
      c.check( b.GetHighIndex() == (int) m.size() - 1, "high index ", b.GetHighIndex(), " expected ", (int) m.size() - 1 );
      for( int t: touched )
         for( int d { -9 }; d <= 9; d++ )
         {
            const int k = t + d;
            c.check( b.GetBit( k ) == ( k >= 0 && k < (int) m.size() && m[k] ), "bit ", k, " is ", b.GetBit( k ) );
         }
   }
   for( int k {}; k < (int) m.size() + 9; k++ )
      c.check( b.GetBit( k ) == ( k < (int) m.size() && m[k] ), "bit ", k, " is ", b.GetBit( k ) );
   c.nontrivial = offs > 0;
   c.desc = std::to_string( nops ) + " bit operations, span " + std::to_string( hi );
}

VP_PROP( C23, intlist, "more than one storage block in use, or an exchange made", 9000, 60000 )
{
   gmsdata::TXIntList l;
   std::vector<int> m;
   int ex {};
   const int nops = s.range( 1, 25 );
   for( int o {}; o < nops; o++ )
   {
      const int n = static_cast<int>( m.size() );
      switch( s.weighted( { 6, 4, 3, 2, 1 } ) )
      {
         case 0:
         {
            const int v = static_cast<int>( s.bits32() );
            c.check( l.Add( v ) == n, "Add" );
            m.push_back( v );
            break;
         }
         case 1:
         {// assignment past the end extends with zeros
            const int i = s.chance( 1, 6 ) ? s.range( 4090, 4100 ) : s.range( 0, n + 3 );
            const int v = s.range( -5, 5 );
            if( i >= (int) m.size() ) m.resize( i + 1 );
            l[i] = v;
            m[i] = v;
            break;
         }
         case 2:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 ), j = s.range( 0, n - 1 );
            l.Exchange( i, j );
            std::swap( m[i], m[j] );
            ex++;
            break;
         }
         case 3:
         {
            const int k = s.chance( 1, 25 ) ? s.range( 131000, 140000 ) : s.chance( 1, 2 ) ? s.range( 4000, 9000 ) : s.range( 1, 60 );
            for( int i {}; i < k; i++ )
            {
               l.Add( i * 3 );
               m.push_back( i * 3 );
            }
            break;
         }
         case 4:
            l.Clear();
            m.clear();
            break;
      }
      c.check( l.GetCount() == (int64_t) m.size() && l.size() == (int64_t) m.size(), "count" );
      const auto &cl = l;
      for( int i {}; i < (int) m.size(); i++ ) c.check( cl[i] == m[i], "item ", i, " = ", cl[i], " expected ", m[i] );
   }
   c.nontrivial = m.size() > 4096 || ex;
   c.desc = std::to_string( nops ) + " ops on an integer list of " + std::to_string( m.size() );
}

VP_PROP( C23, growarray, "more than one storage block in use", 4500, 30000 )
{
   const int sz = s.chance( 1, 3 ) ? s.range( 1, 16384 ) : s.chance( 1, 2 ) ? s.range( 1, 64 ) : s.range( 100, 3000 );
   gmsdata::TGrowArrayFxd<uint8_t> l { sz };
   std::vector<std::vector<uint8_t>> m;
   std::vector<uint8_t *> addr;
   const int nops = s.range( 1, 12 );
   int maxItems = static_cast<int>( std::min<int64_t>( 2000000 / sz + 2, 20000 ) );
   int seq {};
   bool blocks {};
   for( int o {}; o < nops; o++ )
   {
      switch( s.weighted( { 5, 5, 3, 1 } ) )
      {
         case 0:
         case 1:
         {
            const int k = s.range( 1, std::max( 1, std::min( maxItems - (int) m.size(), 3 * 16384 / sz + 1 ) ) );
            for( int i {}; i < k && (int) m.size() < maxItems; i++ )
            {
               std::vector<uint8_t> d( sz, static_cast<uint8_t>( ++seq ) );
               d[0] = static_cast<uint8_t>( seq >> 8 );
               addr.push_back( l.AddItem( d.data() ) );
               m.push_back( std::move( d ) );
            }
            break;
         }
         case 2:
         {
            addr.push_back( l.ReserveAndClear() );
            m.emplace_back( sz, 0 );
            break;
         }
         case 3:
            l.Clear();
            m.clear();
            addr.clear();
            break;
      }
      c.check( l.GetCount() == (int64_t) m.size(), "count" );
      for( int i {}; i < (int) m.size(); i++ )
      {
         c.check( !memcmp( l[i], m[i].data(), sz ), "item ", i, " of size ", sz );
         c.check( l.GetItemPtrIndex( i ) == addr[i], "item ", i, " moved" );
      }
      blocks |= (int64_t) m.size() * sz > 16384;
   }
   c.nontrivial = blocks;
   c.desc = "array of items of " + std::to_string( sz ) + " bytes, " + std::to_string( m.size() ) + " items";
}

namespace
{
template<typename L>
void runCustom( Src &s, Ctx &c, bool hashed, bool sortable )
{
   L l;
   const int base = s.flip();
   l.OneBased = base;
   static int pool[8];
   std::vector<std::pair<std::string, int *>> m;
   int sorts {}, hits {};
   const int nops = s.range( 1, 30 );
   for( int o {}; o < nops; o++ )
   {
      const int n = static_cast<int>( m.size() );
      int *ob = s.flip() ? nullptr : &pool[s.range( 0, 7 )];
      switch( s.weighted( { 8, hashed ? 0 : 3, hashed ? 0 : 3, 5, hashed ? 0 : 1, 1, hashed ? 0 : 2, 2, 1, 1 } ) )
      {
         case 0:
         {
            auto t = genName( s, !hashed, !hashed );
            if( n && s.chance( 1, 3 ) ) t = s.pick( m ).first;
            const bool plain = s.chance( 1, 4 );
            c.log( "AddObject ", q( t ) );
            const int r = plain ? l.Add( t.c_str(), t.size() ) : l.AddObject( t.c_str(), t.size(), ob );
            int e = n;
            if( hashed )
               for( int i {}; i < n; i++ )
                  if( m[i].first == t ) e = i;
            if( e == n ) m.emplace_back( t, plain ? nullptr : ob );
            else
               hits++;
            c.check( r == e + base, "Add ", q( t ), " returned ", r, " expected ", e + base );
            break;
         }
         case 1:
         {
            auto t = genName( s, true, !hashed );
            const int i = s.range( 0, n );
            c.log( "InsertItem ", i + base );
            l.InsertItem( i + base, t.c_str(), t.size(), ob );
            m.insert( m.begin() + i, { t, ob } );
            break;
         }
         case 2:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            c.log( "Delete ", i + base );
            l.Delete( i + base );
            m.erase( m.begin() + i );
            break;
         }
         case 3:
         {
            auto t = n && s.flip() ? randCase( s, s.pick( m ).first ) : genName( s, true, !hashed );
            int e = -1;
            for( int i { n - 1 }; i >= 0; i-- )
               if( up( m[i].first ) == up( t ) ) e = i + base;
            c.check( l.IndexOf( t.c_str() ) == e, "IndexOf ", q( t ), " = ", l.IndexOf( t.c_str() ), " expected ", e );
            hits += e >= 0;
            break;
         }
         case 4:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 ), j = s.range( 0, n - 1 );
            c.log( "Exchange ", i + base, " ", j + base );
            l.Exchange( i + base, j + base );
            std::swap( m[i], m[j] );
            break;
         }
         case 5:
            c.log( "Clear" );
            l.Clear();
            m.clear();
            break;
         case 6:
         {
            if( !sortable ) break;
            c.log( "SortN" );
            l.SortN( n );
            auto cp = m;
            for( int i {}; i < n; i++ )
            {// same entries, ordered without regard to case
               std::pair<std::string, int *> g { l.GetName( i + base ), l.GetObject( i + base ) };
               auto f = std::find( cp.begin(), cp.end(), g );
               c.check( f != cp.end(), "after sorting, entry ", i, " ", q( g.first ), " was not in the list" );
               cp.erase( f );
               m[i] = g;
               if( i ) c.check( icmp( m[i - 1].first, m[i].first ) <= 0, "not sorted: ", q( m[i - 1].first ), " before ", q( m[i].first ) );
            }
            sorts += n > 1;
            break;
         }
         case 7:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            if( s.flip() ) l.PutObject( i + base, ob );
            else
               *l.GetObjectAddr( i + base ) = ob;
            m[i].second = ob;
            break;
         }
         case 8:
         {
            if( s.chance( 1, 2 ) ) { l.SetCapacity( s.range( 0, 300 ) ); break; }
            const int k = s.range( 1, hashed && s.chance( 1, 4 ) ? 400 : 150 );
            const auto pre = std::string( 1, "klmn"[s.range( 0, 3 )] ) + std::to_string( o );
            c.log( "bulk ", k );
            for( int i {}; i < k; i++ )
            {
               auto t = bulkName( pre, i );
               bool known {};
               if( hashed )
                  for( auto &p: m ) known |= p.first == t;
               if( known ) continue;
               c.check( l.AddObject( t.c_str(), t.size(), ob ) == (int) m.size() + base, "bulk add" );
               m.emplace_back( t, ob );
            }
            break;
         }
         case 9: c.check( l.GetCapacity() >= n, "capacity" ); break;
      }
      c.check( l.Count() == (int) m.size() && l.size() == (int) m.size(), "count ", l.Count(), " expected ", m.size() );
      const L &cl = l;
      for( int i {}; i < (int) m.size(); i++ )
      {
         c.check( m[i].first == l.GetName( i + base ), "GetName(", i + base, ") = ", q( l.GetName( i + base ) ), " expected ", q( m[i].first ) );
         c.check( m[i].first == l.GetString( i + base ), "GetString" );
         c.check( cl[i + base] == l.GetName( i + base ), "operator[](", i + base, ") is another entry than GetName" );
         c.check( l.GetObject( i + base ) == m[i].second, "GetObject ", i + base );
      }
   }
   if( sorts ) c.label( "sorted" );
   c.nontrivial = hits > 0 && m.size() >= 2;
   c.desc = std::to_string( nops ) + " ops, " + std::to_string( m.size() ) + " strings, base " + std::to_string( base );
}
}// namespace

VP_PROP( C23, customlist, "a stored string was found and 2 or more are stored", 12000, 80000 )
{
   runCustom<gmsobj::TXCustomStringList<int>>( s, c, false, true );
}

VP_PROP( C23, hashedlist, "a stored string was found again and 2 or more are stored", 7500, 50000 )
{
   if( s.flip() ) runCustom<gmsobj::TXHashedStringList<int>>( s, c, true, false );
   else
      runCustom<gmsobj::TXStrPool<int>>( s, c, true, false );
}

// past the first growth step of the string pool's table
VP_PROP( C23, bigpool, "more entries than the first table growth step", 9, 24 )
{
   gmsobj::TXStrPool<int> l;
   const int base = s.flip();
   l.OneBased = base;
   const int n = s.range( 130000, 140000 );
   const std::string pre = genName( s );
   for( int i {}; i < n; i++ )
   {
      auto t = bulkName( pre, i );
      c.check( l.Add( t.c_str(), t.size() ) == i + base, "Add ", i );
   }
   for( int i {}; i < n; i++ )
   {
      auto t = bulkName( pre, i );
      c.check( l.Add( t.c_str(), t.size() ) == i + base, "second Add of ", i );
   }
   c.check( l.Count() == n, "count" );
   l.Clear();
   c.check( l.Add( "a", 1 ) == base && l.Count() == 1, "after Clear" );
   c.nontrivial = true;
   c.desc = std::to_string( n ) + " strings in a pool";
}

VP_PROP( C23, poolsort, "3 or more different strings sorted", 6000, 40000 )
{
   gmsobj::TXStrPool<int> l;
   const int base = s.flip();
   l.OneBased = base;
   std::set<std::string> m;
   const int n = s.size( 200 );
   for( int i {}; i < n; i++ )
   {
      auto t = genName( s );
      l.Add( t.c_str(), t.size() );
      m.insert( t );
   }
   l.SortN( l.Count() );
   c.check( l.Count() == (int) m.size(), "count" );
   int i {};
   for( auto &t: m ) c.check( t == l.GetName( i + base ), "sorted pool entry ", i, " is ", q( l.GetName( i + base ) ), " expected ", q( t ) ), i++;
   c.nontrivial = m.size() >= 3;
   c.desc = std::to_string( m.size() ) + " strings sorted";
}

VP_PROP( C23, sortedlist, "a lookup hit in a list of 3 or more", 15000, 100000 )
{
   gmsobj::TXSortedStringList<int> l;
   const int base = s.flip();
   l.OneBased = base;
   static int pool[8];
   std::vector<std::pair<std::string, int *>> m;// current order, re-read after sorting
   int upd {}, hits {};
   bool ordered = true;// outside of updates the list is in order
   auto reread = [&] {
      auto cp = m;
      const int n = static_cast<int>( m.size() );
      c.check( l.Count() == n, "count" );
      for( int i {}; i < n; i++ )
      {
         std::pair<std::string, int *> g { l.GetName( i + base ), l.GetObject( i + base ) };
         auto f = std::find( cp.begin(), cp.end(), g );
         c.check( f != cp.end(), "entry ", i, " ", q( g.first ), " is not one that was added" );
         cp.erase( f );
         m[i] = g;
         if( ordered && i ) c.check( icmp( m[i - 1].first, m[i].first ) <= 0, "not in order: ", q( m[i - 1].first ), " before ", q( m[i].first ) );
      }
   };
   const int nops = s.range( 1, 40 );
   for( int o {}; o < nops; o++ )
   {
      const int n = static_cast<int>( m.size() );
      switch( s.weighted( { 9, 6, 3, 3, 1, 2 } ) )
      {
         case 0:
         {
            auto t = genName( s, true, true );
            int *ob = s.flip() ? nullptr : &pool[s.range( 0, 7 )];
            c.log( "Add ", q( t ), " updating=", upd );
            const int r = l.AddObject( t.c_str(), t.size(), ob ) - base;
            c.check( r >= 0 && r <= n, "AddObject returned ", r );
            m.insert( m.begin() + r, { t, ob } );
            if( upd ) ordered = false;
            c.check( l.Count() == n + 1 && t == l.GetName( r + base ) && l.GetObject( r + base ) == ob, "the entry just added is not at the index returned" );
            break;
         }
         case 1:
         {
            auto t = n && s.flip() ? randCase( s, s.pick( m ).first ) : genName( s, true, true );
            int e = -1;
            for( int i { n - 1 }; i >= 0; i-- )
               if( up( m[i].first ) == up( t ) ) e = i + base;
            c.log( "IndexOf ", q( t ), " sorted=", l.GetSorted() );
            const int r = l.IndexOf( t.c_str(), t.size() );
            auto same = [&]( int k ) { return k - base >= 0 && k - base < n && up( m[k - base].first ) == up( t ); };
            c.check( e < 0 ? r == -1 : same( r ), "IndexOf ", q( t ), " = ", r, " expected ", e );
            hits += e >= 0 && n >= 3;
            if( ordered )
            {
               int ix {}, ex = base;
               const bool f = l.Find( t.c_str(), t.size(), ix );
               while( ex - base < n && icmp( m[ex - base].first, t ) < 0 ) ex++;
               c.check( f == ( e >= 0 ) && ( f ? same( ix ) : ix == ex ), "Find ", q( t ), " = ", f, " at ", ix, " expected ", ex );
            }
            break;
         }
         case 2:
            c.log( "BeginUpdate" );
            l.BeginUpdate();
            upd++;
            break;
         case 3:
            if( !upd ) break;
            c.log( "EndUpdate" );
            l.EndUpdate();
            if( !--upd )
            {
               ordered = true;
               c.check( l.GetSorted(), "not sorted after the last EndUpdate" );
            }
            break;
         case 4:
            c.log( "SetSorted(true)" );
            l.SetSorted( true );
            ordered = true;
            c.check( l.GetSorted(), "SetSorted" );
            break;
         case 5:
         {
            if( !n ) break;
            const int i = s.range( 0, n - 1 );
            l.Delete( i + base );
            m.erase( m.begin() + i );
            break;
         }
      }
      reread();
   }
   c.nontrivial = hits > 0;
   c.desc = std::to_string( nops ) + " ops on a sorted list of " + std::to_string( m.size() );
}

namespace
{
struct Row {
   std::vector<int> k;
   std::vector<double> v;
   bool operator==( const Row &o ) const { return k == o.k && v == o.v; }
   bool operator<( const Row &o ) const { return std::tie( k, v ) < std::tie( o.k, o.v ); }
};
Row genRow( Src &s, int dim, int nv, int hi, int serial )
{
   Row r;
   for( int d {}; d < dim; d++ ) r.k.push_back( s.range( 0, hi ) );
   for( int i {}; i < nv; i++ ) r.v.push_back( serial * 10 + i );
   return r;
}
int genHi( Src &s ) { return s.weighted( { 4, 3, 1 } ) == 0 ? 3 : s.flip() ? 300 : 200000; }
}// namespace

VP_PROP( C23, table, "sorted a table of 3 or more rows", 12000, 80000 )
{
   const int dim = s.chance( 1, 6 ) ? s.range( 0, 20 ) : s.range( 1, 4 ), nv = s.range( 1, 5 ), hi = genHi( s );
   gmsdata::TTblGamsData<double> t { dim, nv * static_cast<int>( sizeof( double ) ) };
   std::vector<Row> m;
   int serial {}, sorts {};
   const int nops = s.range( 1, 30 );
   auto get = [&]( int i ) {
      Row r { std::vector<int>( dim ), std::vector<double>( nv ) };
      t.GetRecord( i, r.k.data(), r.v.data() );
      return r;
   };
   for( int o {}; o < nops; o++ )
   {
      switch( s.weighted( { 8, 3, 2, 1 } ) )
      {
         case 0:
         case 1:
         {
            for( int k = s.range( 1, s.chance( 1, 4 ) ? 60 : 4 ); k > 0; k-- )
            {
               auto r = genRow( s, dim, nv, hi, ++serial );
               t.AddRecord( r.k.data(), r.v.data() );
               m.push_back( r );
            }
            break;
         }
         case 2:
         {
            t.Sort();
            sorts += m.size() >= 3;
            c.check( t.GetCount() == (int) m.size(), "count" );
            std::vector<Row> g;
            for( int i {}; i < (int) m.size(); i++ ) g.push_back( get( i ) );
            for( size_t i { 1 }; i < g.size(); i++ ) c.check( g[i - 1].k <= g[i].k, "rows ", i - 1, " and ", i, " out of order" );
            auto a = g, b = m;
            std::sort( a.begin(), a.end() );
            std::sort( b.begin(), b.end() );
            c.check( a == b, "sorting changed the rows" );
            m = g;
            break;
         }
         case 3:
            t.Clear();
            m.clear();
            break;
      }
      c.check( t.GetCount() == (int) m.size() && t.size() == (int) m.size() && t.empty() == m.empty() && t.GetDimension() == dim, "count" );
      for( int i {}; i < (int) m.size(); i++ )
      {
         c.check( get( i ) == m[i], "row ", i );
         std::vector<int> k( dim );
         std::vector<double> v( nv );
         t.GetKeys( i, k.data() );
         t.GetData( i, v.data() );
         c.check( k == m[i].k && v == m[i].v && !memcmp( t.GetDataPtr( i ), v.data(), nv * sizeof( double ) ), "GetKeys/GetData ", i );
      }
   }
   c.nontrivial = sorts > 0;
   c.desc = "table of " + std::to_string( m.size() ) + " rows, dimension " + std::to_string( dim );
}

// bulk store behind string and mapped writing: rows come back in index order, equal keys in the order
// they were added, whatever was added before or after an earlier reading
VP_PROP( C23, linked, "3 or more rows read in sorted order that were not added in that order", 12000, 80000 )
{
   const int dim = s.chance( 1, 6 ) ? s.range( 0, 20 ) : s.range( 1, 4 ), nv = s.range( 1, 5 ), hi = genHi( s );
   datastorage::TLinkedData<int, double> t { dim, nv * static_cast<int>( sizeof( double ) ) };
   std::vector<Row> m;
   int serial {}, unsorted {}, rounds {};
   const int nops = s.range( 1, 20 );
   const bool useMap = s.chance( 1, 4 );
   for( int o {}; o < nops; o++ )
   {
      switch( s.weighted( { 8, 4, 1 } ) )
      {
         case 0:
         {
            for( int k = s.range( 1, s.chance( 1, 4 ) ? 80 : 5 ); k > 0; k-- )
            {
               auto r = genRow( s, dim, nv, hi, ++serial );
               const bool nodata = s.chance( 1, 10 );
               if( nodata ) std::fill( r.v.begin(), r.v.end(), 0.0 );
               t.AddItem( r.k.data(), nodata ? nullptr : r.v.data() );
               m.push_back( r );
            }
            break;
         }
         case 1:
         {
            std::vector<int> map( std::max( 1, dim ) );
            std::iota( map.begin(), map.end(), 0 );
            if( useMap )
               for( int d { dim - 1 }; d > 0; d-- ) std::swap( map[d], map[s.range( 0, d )] );
            auto less = [&]( const Row &a, const Row &b ) {
               for( int d {}; d < dim; d++ )
                  if( a.k[map[d]] != b.k[map[d]] ) return a.k[map[d]] < b.k[map[d]];
               return false;
            };
            if( !std::is_sorted( m.begin(), m.end(), less ) && m.size() >= 3 ) unsorted++;
            std::stable_sort( m.begin(), m.end(), less );
            c.log( "read ", m.size(), " rows", useMap ? " mapped" : "" );
            auto st = t.StartRead( useMap ? map.data() : nullptr );
            c.check( st.has_value() == !m.empty(), "StartRead" );
            rounds++;
            if( m.empty() ) break;
            auto *p = *st;
            for( size_t i {}; i < m.size(); i++ )
            {
               Row r { std::vector<int>( dim ), std::vector<double>( nv ) };
               c.check( t.GetNextRecord( &p, r.k.data(), r.v.data() ), "only ", i, " of ", m.size(), " rows delivered" );
               c.check( r == m[i], "row ", i, " of ", m.size(), " differs (keys ", r.k.empty() ? 0 : r.k[0], ", value ", r.v[0], ", expected ", m[i].k.empty() ? 0 : m[i].k[0], ", ", m[i].v[0], ")" );
            }
            Row r { std::vector<int>( dim ), std::vector<double>( nv ) };
            c.check( !t.GetNextRecord( &p, r.k.data(), r.v.data() ), "a record too many" );
            break;
         }
         case 2:
            t.Clear();
            m.clear();
            break;
      }
      c.check( t.Count() == (int) m.size(), "count" );
   }
   c.nontrivial = unsorted > 0;
   c.desc = std::to_string( serial ) + " rows of dimension " + std::to_string( dim ) + ", " + std::to_string( rounds ) + " readings";
}
