// Documents for the command line tools: pure data, written by writeTool, read by readTool.
#pragma once
#include "model.hpp"

namespace vp
{
struct TRec {
   Key k;
   V5 v {};         // parameters, variables, equations; sets: unused
   std::string text;// sets
   bool operator==( const TRec &o ) const
   {
      if( k != o.k || text != o.text ) return false;
      for( int i = 0; i < 5; i++ )
         if( bitsOf( v[i] ) != bitsOf( o.v[i] ) ) return false;
      return true;
   }
};
struct TSym {
   std::string name;
   int dim {}, type {}, user {};
   std::string expl;
   std::vector<std::string> comments;
   std::vector<int> domReg;      // regular domain: symbol numbers (0: *)
   std::vector<std::string> domX;// relaxed domain
   int aliasOf { -1 };
   std::vector<TRec> recs;
};
struct TAcr {
   std::string name, text;
   int idx;
};
struct TDoc {
   std::vector<std::string> uels;
   std::vector<TSym> syms;
   std::vector<TAcr> acrs;
   std::string label( int n ) const { return n >= 1 && n <= (int) uels.size() ? uels[n - 1] : "L__" + std::to_string( n ); }
   int find( const std::string &n ) const
   {
      for( size_t i = 0; i < syms.size(); i++ )
         if( sameCI( syms[i].name, n ) ) return (int) i + 1;
      return 0;
   }
   int resolve( int sy ) const// follow aliases; 0: the universe
   {
      while( sy > 0 && syms[sy - 1].type == GMS_DT_ALIAS ) sy = syms[sy - 1].aliasOf;
      return sy;
   }
   std::string describe() const;
};
struct TOpt {
   int maxSyms { 6 };
   int maxDim { MAXDIM };
   bool acronyms { true };
   bool unregistered { true };// label numbers without a label
   bool aliases { true };
   bool domains { true };
   bool comments { true };
   bool emptyLabel { true };
   bool dim0sets { true };
   bool plainNames {};
   bool bulk { true };       // sometimes hundreds of labels
};
double acrVal( int idx );
TDoc genTool( Src &s, const TOpt &o );
std::vector<TRec> genToolRecs( Src &s, const TDoc &d, const TSym &y, const TOpt &o );
double genToolVal( Src &s, const TDoc &d, int type, int user, int field );
V5 toolDefault( int type, int user );
void writeTool( Ctx &c, const TDoc &d, const std::string &fn, int compr );

// content of a file with labels instead of numbers
struct SRec {
   std::vector<std::string> k;
   V5 v {};
   std::string text;
};
struct SSym {
   std::string name, expl;
   int dim {}, type {}, user {};
   std::vector<SRec> recs;
};
struct SDoc {
   std::vector<SSym> syms;
   std::vector<std::string> uels;
   std::vector<TAcr> acrs;
   const SSym *find( const std::string &n ) const
   {
      for( auto &y: syms )
         if( sameCI( y.name, n ) ) return &y;
      return nullptr;
   }
};
SDoc readTool( Ctx &c, const std::string &fn );
std::vector<std::string> upKeys( std::vector<std::string> k );

// ------------------------------------------------------------ running a tool
struct Run {
   int code;// exit code; 1000+n: ended by signal n
   std::string out, err;
};
Run runTool( Ctx &c, const std::string &tool, const std::vector<std::string> &args, const std::string &cwd = {} );

// printed number
std::string num15( double v );// value after rounding to 15 significant digits, as bits text
}// namespace vp
