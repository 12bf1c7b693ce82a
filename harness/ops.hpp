// Call histories over all exported functions: mostly sensible for the current mode, sometimes not.
#pragma once
#include "api.hpp"
#include "core.hpp"

namespace ops
{
struct St {
   enum M { Closed, WInit, WStr, WMap, WRaw, RInit, RRaw, RMap, RStr, RSlice, RegRaw, RegMap, RegStr, RegFilt } m { Closed };
   bool writing {}, begun {};
   int dim {}, typ {}, syms {}, files {}, last {}, texts {};
   int lastKey {};
   std::vector<bool> written = std::vector<bool>( 3 );
   std::vector<std::string> labels, names;
};
api::Call gen( vp::Src &s, St &st, int fn = -1 );// fn: the function to call, where given
void after( St &st, const api::Call &x, const api::Res &r );
}
