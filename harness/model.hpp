// Reference model of a GDX document, generators for documents, and small wrappers
// around the public C++ interface of the library.
#pragma once
#include "core.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <optional>

#include "gdx.hpp"
#include "gclgms.h"

namespace vp
{
using gdx::TGXFileObj;

constexpr int MAXDIM = 20;
using V5 = std::array<double, 5>;
using Key = std::vector<int>;

struct Rec {
   Key k;
   V5 v {};
};

inline int nvals( int type ) { return type == GMS_DT_VAR || type == GMS_DT_EQU ? 5 : ( type == GMS_DT_ALIAS ? 1 : 1 ); }

inline char up( char c ) { return c >= 'a' && c <= 'z' ? char( c - 32 ) : c; }
inline std::string upper( std::string s )
{
   for( auto &c: s ) c = up( c );
   return s;
}
inline bool sameCI( const std::string &a, const std::string &b ) { return upper( a ) == upper( b ); }

inline uint64_t bitsOf( double d )
{
   uint64_t b;
   std::memcpy( &b, &d, 8 );
   return b;
}
inline double fromBits( uint64_t b )
{
   double d;
   std::memcpy( &d, &b, 8 );
   return d;
}

// What the library promises to give back for a double written with default special values
// (values at or above the acronym threshold excluded).
inline double canonical( double x )
{
   if( std::isnan( x ) ) return GMS_SV_NA;
   if( std::isinf( x ) ) return x > 0 ? GMS_SV_PINF : GMS_SV_MINF;
   if( x == 0.0 ) return 0.0;
   return x;
}

// ---------------------------------------------------------------- strings
inline std::string trimR( const std::string &s )
{
   size_t n = s.size();
   while( n && (unsigned char) s[n - 1] <= 32 ) n--;
   return s.substr( 0, n );
}
inline bool goodUel( const std::string &s )
{
   if( s.size() >= 64 ) return false;
   bool sq {}, dq {};
   for( unsigned char c: s )
   {
      if( c < 32 ) return false;
      if( c == '\'' ) sq = true;
      if( c == '"' ) dq = true;
   }
   return !( sq && dq );
}
inline std::string goodText( std::string s )
{
   char qc {};
   for( auto &c: s )
   {
      if( c == '"' || c == '\'' )
      {
         if( !qc ) qc = c;
         c = qc;
      }
      else if( (unsigned char) c < 32 )
         c = '?';
   }
   return s;
}
inline bool goodIdent( const std::string &s )
{
   if( s.empty() || s.size() > 63 ) return false;
   auto let = []( char c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); };
   if( !let( s[0] ) ) return false;
   for( char c: s )
      if( !let( c ) && !( c >= '0' && c <= '9' ) && c != '_' ) return false;
   return true;
}

// valid UEL label, already right-trimmed
std::string genUel( Src &s );
// arbitrary candidate label, possibly invalid or untrimmed
std::string genUelAny( Src &s );
std::string genIdent( Src &s );
std::string genIdentAny( Src &s );
// text with at most maxlen characters; may contain quotes and control characters
std::string genText( Src &s, int maxlen = 255 );
// any double below the acronym threshold
double genDouble( Src &s, double acrLimit = GMS_SV_ACR );

// a case-variant of the string
std::string recase( Src &s, const std::string &x );

// ---------------------------------------------------------------- document model
struct Sym {
   std::string name;
   int dim {}, type {}, user {};
   std::string expl;// as it must be read back
   std::vector<Rec> recs;// sorted by key, unique
   std::vector<std::string> comments;
   int domKind { 1 };// 1 none, 2 relaxed, 3 regular (as reported by GetDomainX)
   std::vector<std::string> dom;
   int aliasOf { -1 };// symbol number (0 = universe), -1: not an alias
   int errors {};
   bool hasText {};
};
struct Doc {
   std::vector<std::string> uels;// entry n is uels[n-1]
   std::vector<Sym> syms;// symbol n is syms[n-1]
   std::vector<std::string> texts { "" };
   int findUel( const std::string &x ) const
   {
      auto it = idx.find( upper( x ) );
      return it == idx.end() ? -1 : it->second;
   }
   int addUel( const std::string &x )// returns the entry number
   {
      int n = findUel( x );
      if( n > 0 ) return n;
      uels.push_back( x );
      idx[upper( x )] = (int) uels.size();
      return (int) uels.size();
   }
   int findSym( const std::string &x ) const
   {
      for( size_t i = 0; i < syms.size(); i++ )
         if( sameCI( syms[i].name, x ) ) return (int) i + 1;
      return -1;
   }
   std::map<std::string, int> idx;
   bool anyScalarFdim {};// files before version 7: the first changed position of a scalar is not checked
};

// ---------------------------------------------------------------- library helpers
struct StrKeys {
   char buf[MAXDIM][256] {};
   char *p[MAXDIM];
   StrKeys()
   {
      for( int i = 0; i < MAXDIM; i++ ) p[i] = buf[i];
   }
};

std::unique_ptr<TGXFileObj> mk();
// an object that may have had an earlier life: other files written, read, abandoned, opens that failed
std::unique_ptr<TGXFileObj> mkUsed( Ctx &c, Src &s );
void previousLife( Ctx &c, Src &s, TGXFileObj &g );
void openWrite( Ctx &c, TGXFileObj &g, const std::string &fn, int compr, const char *producer = "vp" );
void openRead( Ctx &c, TGXFileObj &g, const std::string &fn );
void closeOk( Ctx &c, TGXFileObj &g );

struct StrRec {
   std::vector<std::string> k;
   V5 v {};
   int fdim {};
};
struct RawRec {
   Key k;
   V5 v {};
   int fdim {};
};
// Read one symbol completely; checks protocol details common to all reads.
std::vector<StrRec> readStr( Ctx &c, TGXFileObj &g, int sy, int dim, int type, int *nrecs = nullptr );
std::vector<RawRec> readRaw( Ctx &c, TGXFileObj &g, int sy, int dim, int type, int *nrecs = nullptr );

std::string keyStr( const Key &k );
std::string recStr( const Rec &r, int nv );
bool sameVals( const V5 &a, const V5 &b, int nv );

// Compare all data of an open file with the model (string and raw reads), including
// record counts, ordering and first-changed-dimension.
void checkData( Ctx &c, TGXFileObj &g, const Doc &d );
// Compare symbol table, labels, texts, comments, domains.
void checkMeta( Ctx &c, TGXFileObj &g, const Doc &d );
// default record of a scalar symbol without data
V5 defaultRec( int type, int user );

// ---------------------------------------------------------------- document generator
struct GenOpt {
   int maxSyms { 5 };
   int maxDim { MAXDIM };
   bool texts { true };
   bool meta { true };    // comments, odd explanatory texts
   bool big { true };     // allow the large regimes
   bool trivialVals {};
   int maxRecs { 400 };
   bool needUels {};
   bool allowEmptyLabel { true };
   bool rich {};// aliases, set texts, comments, relaxed domains
};
struct SymPlan {
   std::string name, expl;
   int dim, type, user;
   std::vector<Rec> recs;// keys are indices (1..) into the pool, sorted by pool order, unique
   int aliasOf { -1 };   // >=0: an alias of that symbol (0: the universe)
   std::vector<std::string> comments;
   std::vector<std::string> domX;// relaxed domain names, empty: none declared
};
struct Plan {
   std::vector<std::string> pool;// labels; the intended entry order
   std::vector<SymPlan> syms;
   std::vector<std::string> texts;// additional set texts (number i+1), as given
   int regime {};
   std::string describe() const;
};
Plan genPlan( Src &s, const GenOpt &o );
std::vector<Rec> genRecs( Src &s, int dim, int type, int poolSize, int regime, const GenOpt &o, int ntexts );
std::vector<std::string> genPool( Src &s, int regime, bool allowEmpty = true );

enum WMode { W_STR, W_MAP, W_RAW, W_RAWB };

// Writes a plan with all labels registered first (so that entry order = pool order).
struct WriteCfg {
   int compr {};
   int regMode {};// 0 raw, 1 str, 2 map (user numbers)
   std::vector<int> mode;// write mode per symbol
   std::vector<int> umap;// user number of pool entry i (map registration)
   bool shuffle {};
};
WriteCfg genWriteCfg( Src &s, const Plan &p );
// performs the writes on an open file and fills the model
void writePlan( Ctx &c, Src &s, TGXFileObj &g, const Plan &p, const WriteCfg &w, Doc &d );
void registerPool( Ctx &c, TGXFileObj &g, const Plan &p, const WriteCfg &w, Doc &d );
void writeSym( Ctx &c, Src *s, TGXFileObj &g, const Plan &p, const SymPlan &sp, const WriteCfg &w, int mode, bool shuffle, Doc &d );

std::string slurpFile( const std::string &fn );
void spitFile( const std::string &fn, const std::string &b );
}// namespace vp
