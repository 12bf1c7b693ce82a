// Every exported gdx function behind one generic call, by several routes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace api
{

struct FnInfo {
   const char *name, *sig;
   bool pascal;
};
#define VP_ENUM
#include "api_gen.inc"
#undef VP_ENUM

constexpr int NS = 20;

struct Call {
   int fn {};
   int i[6] {};
   double d {};
   std::string s[2];
   int ia[2][NS] {};
   double da[32] {};
   std::string ss[NS];
   int stopAfter {};// callbacks ask to stop after so many records (0: never)
   bool alt {};     // library route: use the flat-array / by-reference export where there is one
   int file { -1 }; // s[0] is file number so and so of the executing side
   const char **ptrs() const
   {
      for( int k = 0; k < NS; k++ ) p[k] = ss[k].c_str();
      return p;
   }
   mutable const char *p[NS];
};

struct Res {
   long ret { -777 };
   double dret {};
   int oi[4];
   int oa[NS];
   double od[32];
   char os[2][256];
   char oss[NS][256];
   std::string cb;
   int cbCount {}, stopAfter {};
   char *p[NS];
   Res();
   char **ptrs()
   {
      for( int k = 0; k < NS; k++ ) p[k] = oss[k];
      return p;
   }
   void *uptr() { return this; }
};

extern thread_local Res *cur;
void cbPlain( const int *Indx, const double *Vals );
int cbEx( const int *Indx, const double *Vals, int afdim, void *Uptr );
int cbFilt( const int *Indx, const double *Vals, void *Uptr );
void cbDom( int RawIndex, int MappedIndex, void *Uptr );

// what was returned, as text; strings of a failed call are left out when noStrOnFail
std::string show( const Call &x, const Res &r, bool strOnFail = true );
std::string show( const Call &x );

struct Route {
   std::string dir;
   virtual ~Route() = default;
   virtual void doCall( const Call &x, Res &r ) = 0;
   void call( Call x, Res &r );
};
std::unique_ptr<Route> routeCpp( const std::string &dir );
std::unique_ptr<Route> routeC( const std::string &dir );   // gdxcc.c loader, C functions
std::unique_ptr<Route> routeWrap( const std::string &dir );// gdxcppwrap.hpp
std::unique_ptr<Route> routePas( const std::string &dir ); // Pascal-string / flat / by-reference exports
}
