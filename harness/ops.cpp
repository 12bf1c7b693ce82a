#include "ops.hpp"
#include "model.hpp"

using namespace api;

namespace ops
{
static int pickFn( vp::Src &s, St &st )
{
   if( s.chance( 1, 12 ) )
   {
      int f = s.range( 0, F_COUNT - 1 );
      return f;
   }
   static const std::vector<int> info { F_SystemInfo, F_SymbolInfo, F_SymbolInfoX, F_SymbolDim, F_SymbolGetDomain, F_SymbolGetDomainX, F_FindSymbol, F_GetUEL, F_UMUelGet, F_UMUelInfo, F_UMFindUEL, F_GetElemText, F_ErrorCount, F_GetLastError, F_ErrorStr, F_FileVersion, F_FileInfo, F_SetHasText, F_SymbIndxMaxLength, F_SymbMaxLength, F_UELMaxLength, F_SymbolGetComment, F_AcronymCount, F_AcronymGetInfo, F_AcronymGetMapping, F_AcronymIndex, F_AcronymName, F_AcronymValue, F_AcronymNextNr, F_GetSpecialValues, F_MapValue, F_GetDLLVersion, F_CurrentDim, F_GetMemoryUsed, F_DataErrorCount, F_DataErrorRecord, F_DataErrorRecordX, F_FilterExists, F_StoreDomainSets, F_AllowBogusDomains, F_MapAcronymsToNaN };
   if( s.chance( 1, 6 ) ) return s.pick( info );
   switch( st.m )
   {
      case St::Closed:
         switch( s.weighted( { 4, 4, 3, 2, 3, 2 } ) )
         {
            case 0: return F_OpenWrite;
            case 1: return F_OpenWriteEx;
            case 2: return F_OpenRead;
            case 3: return F_OpenReadEx;
            case 4: return F_OpenAppend;
            default: return s.pick( std::vector<int> { F_StoreDomainSetsSet, F_AllowBogusDomainsSet, F_MapAcronymsToNaNSet, F_AutoConvert, F_Close, F_AcronymNextNr } );
         }
      case St::WInit:
         return s.pick( std::vector<int> { F_DataWriteStrStart, F_DataWriteStrStart, F_DataWriteStrStart, F_DataWriteMapStart, F_DataWriteMapStart, F_DataWriteRawStart, F_DataWriteRawStart, F_DataWriteRawStartKeyBounds, F_UELRegisterRawStart, F_UELRegisterMapStart, F_UELRegisterStrStart, F_AddAlias, F_AddSetText, F_AddSetText, F_SetTextNodeNr, F_SymbolAddComment, F_SymbolSetDomain, F_SymbolSetDomainX, F_AcronymAdd, F_AcronymSetInfo, F_SetSpecialValues, F_ResetSpecialValues, F_RenameUEL, F_Close, F_Close } );
      case St::WStr: return s.chance( 1, 4 ) ? F_DataWriteDone : s.chance( 1, 10 ) ? F_SymbolSetDomain : s.chance( 1, 10 ) ? F_AddSetText : F_DataWriteStr;
      case St::WMap: return s.chance( 1, 4 ) ? F_DataWriteDone : s.chance( 1, 10 ) ? F_SymbolSetDomain : F_DataWriteMap;
      case St::WRaw: return s.chance( 1, 4 ) ? F_DataWriteDone : s.chance( 1, 10 ) ? F_SymbolSetDomain : F_DataWriteRaw;
      case St::RInit:
         return s.pick( std::vector<int> { F_DataReadRawStart, F_DataReadRawStart, F_DataReadMapStart, F_DataReadMapStart, F_DataReadStrStart, F_DataReadStrStart, F_DataReadFilteredStart, F_DataReadFilteredStart, F_DataReadSliceStart, F_DataReadSliceStart, F_DataReadRawFast, F_DataReadRawFastEx, F_DataReadRawFastFilt, F_GetDomainElements, F_UELRegisterMapStart, F_UELRegisterStrStart, F_FilterRegisterStart, F_FilterRegisterStart, F_SetReadSpecialValues, F_SetSpecialValues, F_AcronymSetInfo, F_RenameUEL, F_Close, F_Close } );
      case St::RRaw: return s.chance( 1, 6 ) ? F_DataReadDone : F_DataReadRaw;
      case St::RMap: return s.chance( 1, 6 ) ? F_DataReadDone : F_DataReadMap;
      case St::RStr: return s.chance( 1, 6 ) ? F_DataReadDone : F_DataReadStr;
      case St::RSlice: return s.chance( 1, 5 ) ? F_DataReadDone : s.chance( 1, 2 ) ? F_DataReadSlice : F_DataSliceUELS;
      case St::RegRaw: return s.chance( 1, 5 ) ? F_UELRegisterDone : F_UELRegisterRaw;
      case St::RegMap: return s.chance( 1, 5 ) ? F_UELRegisterDone : F_UELRegisterMap;
      case St::RegStr: return s.chance( 1, 5 ) ? F_UELRegisterDone : F_UELRegisterStr;
      case St::RegFilt: return s.chance( 1, 4 ) ? F_FilterRegisterDone : F_FilterRegister;
   }
   return F_Close;
}

static std::string label( vp::Src &s, St &st )
{
   if( !st.labels.empty() && !s.chance( 1, 4 ) ) return s.pick( st.labels );
   std::string u = s.chance( 1, 12 ) ? vp::genUelAny( s ) : vp::genUel( s );
   if( u.size() > 255 ) u.resize( 255 );
   u = std::string( u.c_str() );
   st.labels.push_back( u );
   return u;
}

static std::string symName( vp::Src &s, St &st, bool fresh )
{
   static const std::vector<std::string> odd { "*", "", "bad name", "1x", "i", "averyveryveryveryveryveryveryveryveryveryveryveryverylongname1234", "averyveryveryveryveryveryveryveryveryveryveryveryverylongname123456789" };
   if( s.chance( 1, 15 ) ) return s.pick( odd );
   if( fresh && !s.chance( 1, 12 ) )
   {
      std::string n = "s" + std::to_string( st.names.size() + 1 ) + ( s.flip() ? "" : "_Q" );
      st.names.push_back( n );
      return n;
   }
   if( st.names.empty() ) return "s1";
   return s.pick( st.names );
}

static int smallInt( vp::Src &s, int hi )
{
   if( s.chance( 1, 20 ) ) return s.pick( std::vector<int> { -1, -2, 0, hi + 1, 21, 2147483647, -2147483647 - 1 } );
   return s.range( 0, hi );
}

Call gen( vp::Src &s, St &st, int fn )
{
   Call x;
   if( fn < 0 && !st.begun )
   {
      st.begun = true;
      x.fn = F_AutoConvert;
      return x;
   }
   x.fn = fn >= 0 ? fn : pickFn( s, st );
   x.alt = s.chance( 1, 3 );
   auto key = [&] { return s.chance( 1, 25 ) ? s.range( -1, 400 ) : s.range( 1, 12 ); };
   auto vals = [&] {
      for( int k = 0; k < 5; k++ ) x.da[k] = st.typ == 0 || s.flip() ? s.range( 0, 6 ) : vp::genDouble( s );
   };
   auto file = [&]( bool wr ) {
      x.file = s.range( 0, 2 );
      (void) wr;
      x.s[1] = s.chance( 1, 6 ) ? vp::genText( s ) : std::string( "producer" );
      x.s[1] = std::string( x.s[1].c_str() );
   };
   switch( x.fn )
   {
      case F_OpenWrite:
      case F_OpenWriteEx:
      case F_OpenAppend:
         file( true );
         if( x.fn == F_OpenAppend && st.files && !s.chance( 1, 5 ) ) x.file = st.last;
         x.i[0] = s.range( 0, 1 );
         break;
      case F_OpenRead:
      case F_OpenReadEx:
         file( false );
         if( st.files && !s.chance( 1, 8 ) ) x.file = st.last;
         x.i[0] = s.chance( 1, 2 ) ? 0 : s.range( 0, 31 );
         break;
      case F_DataWriteStrStart:
      case F_DataWriteMapStart:
      case F_DataWriteRawStart:
      case F_DataWriteRawStartKeyBounds:
         x.s[0] = symName( s, st, true );
         x.s[1] = std::string( vp::genText( s ).c_str() );
         x.i[0] = s.chance( 1, 15 ) ? smallInt( s, 20 ) : s.weighted( { 2, 6, 6, 3, 1 } );
         x.i[1] = s.chance( 1, 20 ) ? smallInt( s, 5 ) : s.weighted( { 3, 4, 2, 1 } );
         x.i[2] = s.chance( 1, 2 ) ? 0 : s.range( 0, 60 );
         if( x.i[0] == 0 && x.i[1] == 0 && s.chance( 9, 10 ) ) x.i[0] = 1;
         for( int k = 0; k < NS; k++ ) x.ia[0][k] = s.range( 1, 2 ), x.ia[1][k] = s.chance( 1, 10 ) ? 300 : s.range( 12, 20 );
         break;
      case F_DataWriteStr:
         for( int k = 0; k < std::max( 1, st.dim ) && k < NS; k++ ) x.ss[k] = label( s, st );
         vals();
         break;
      case F_DataWriteMap:
      case F_DataWriteRaw:
         for( int k = 0; k < std::max( 1, st.dim ) && k < NS; k++ ) x.ia[0][k] = key();
         if( x.fn == F_DataWriteRaw && !s.chance( 1, 10 ) ) x.ia[0][0] = ++st.lastKey;
         vals();
         break;
      case F_DataReadSlice:
      case F_DataReadRawFastFilt:
         for( int k = 0; k < NS; k++ )
            if( s.chance( 1, 3 ) ) x.ss[k] = label( s, st );
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         break;
      case F_SymbolSetDomain:
      case F_SymbolSetDomainX:
         for( int k = 0; k < NS; k++ ) x.ss[k] = s.chance( 1, 3 ) ? std::string( "*" ) : symName( s, st, false );
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         break;
      case F_UELRegisterMap:
         x.s[0] = label( s, st );
         x.i[0] = s.chance( 1, 15 ) ? s.range( -1, 2000 ) : s.range( 1, 15 );
         break;
      case F_UELRegisterRaw:
      case F_UELRegisterStr:
      case F_UMFindUEL: x.s[0] = label( s, st ); break;
      case F_RenameUEL:
         x.s[0] = label( s, st );
         x.s[1] = label( s, st );
         break;
      case F_FilterRegister: x.i[0] = s.chance( 1, 12 ) ? s.range( -1, 3000 ) : s.range( 1, 15 ); break;
      case F_FilterRegisterStart:
      case F_FilterExists: x.i[0] = s.range( 0, 4 ); break;
      case F_DataReadFilteredStart:
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         for( int k = 0; k < NS; k++ ) x.ia[0][k] = s.range( -2, 3 );
         break;
      case F_DataSliceUELS:
         for( int k = 0; k < NS; k++ ) x.ia[0][k] = s.range( 0, 6 );
         break;
      case F_GetDomainElements:
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         x.i[1] = s.chance( 1, 12 ) ? s.range( -1, 21 ) : s.range( 1, 3 );
         x.i[2] = s.flip() ? -1 : s.range( -1, 4 );
         break;
      case F_AddAlias:
         x.s[0] = symName( s, st, false );
         x.s[1] = symName( s, st, s.flip() );
         break;
      case F_AddSetText: x.s[0] = std::string( vp::genText( s ).c_str() ); break;
      case F_SymbolAddComment:
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         x.s[0] = std::string( vp::genText( s ).c_str() );
         break;
      case F_AcronymAdd:
      case F_AcronymSetInfo:
         x.s[0] = s.chance( 1, 8 ) ? symName( s, st, false ) : "acr" + std::to_string( s.range( 1, 4 ) );
         x.s[1] = std::string( vp::genText( s ).c_str() );
         x.i[x.fn == F_AcronymAdd ? 0 : 1] = s.range( 0, 6 );
         if( x.fn == F_AcronymSetInfo ) x.i[0] = s.range( 0, 4 );
         break;
      case F_AcronymIndex:
      case F_AcronymName:
      case F_MapValue: x.d = s.flip() ? GMS_SV_ACR * s.range( 1, 5 ) : vp::genDouble( s, 1e308 ); break;
      case F_SetSpecialValues:
      case F_SetReadSpecialValues:
      {
         static const double dflt[] { GMS_SV_UNDEF, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF, GMS_SV_EPS, GMS_SV_ACR, GMS_SV_NAINT };
         for( int k = 0; k < 7; k++ ) x.da[k] = s.flip() ? dflt[k] : k == 5 ? GMS_SV_ACR : vp::genDouble( s );
         break;
      }
      case F_SetTraceLevel:
         x.i[0] = 0;
         x.s[0] = "tr";
         break;
      case F_AutoConvert: x.i[0] = 0; break;// converting would run an external program
      case F_FindSymbol: x.s[0] = symName( s, st, false ); break;
      case F_ErrorStr: x.i[0] = s.chance( 1, 8 ) ? smallInt( s, 10 ) : s.range( -100100, -99900 ); break;
      case F_SetTextNodeNr:
      case F_GetElemText:
         x.i[0] = smallInt( s, 6 );
         x.i[1] = s.range( 0, 9 );
         break;
      case F_GetUEL:
      case F_UMUelGet: x.i[0] = smallInt( s, 15 ); break;
      case F_DataErrorRecord:
      case F_DataErrorRecordX: x.i[0] = smallInt( s, 3 ); break;
      case F_SymbolGetComment:
         x.i[0] = smallInt( s, std::max( 1, st.syms ) );
         x.i[1] = smallInt( s, 3 );
         break;
      case F_StoreDomainSetsSet:
      case F_AllowBogusDomainsSet:
      case F_MapAcronymsToNaNSet: x.i[0] = s.range( 0, 1 ); break;
      case F_AcronymNextNr: x.i[0] = s.range( -1, 20 ); break;
      default: x.i[0] = smallInt( s, std::max( 1, st.syms ) );
   }
   if( x.fn == F_DataReadRawFastEx || x.fn == F_DataReadRawFastFilt ) x.stopAfter = s.chance( 1, 4 ) ? s.range( 1, 4 ) : 0;
   if( x.file < 0 && x.fn != F_OpenAppend )
      for( auto &t: x.s )
         if( t.size() > 255 ) t.resize( 255 );
   return x;
}

void after( St &st, const Call &x, const Res &r )
{
   bool ok = r.ret != 0;
   switch( x.fn )
   {
      case F_OpenWrite:
      case F_OpenWriteEx:
      case F_OpenAppend:
         if( ok )
         {
            if( st.m == St::Closed && x.fn != F_OpenAppend ) st.names.clear(), st.syms = 0;
            st.m = St::WInit, st.writing = true, st.files++, st.last = x.file;
         }
         break;
      case F_OpenRead:
      case F_OpenReadEx:
         if( ok ) st.m = St::RInit, st.writing = false, st.last = x.file;
         break;
      case F_Close: st.m = St::Closed; break;
      case F_DataWriteStrStart:
      case F_DataWriteMapStart:
      case F_DataWriteRawStart:
      case F_DataWriteRawStartKeyBounds:
         if( ok ) st.m = x.fn == F_DataWriteStrStart ? St::WStr : x.fn == F_DataWriteMapStart ? St::WMap : St::WRaw, st.dim = x.i[0], st.typ = x.i[1], st.syms++, st.lastKey = 0;
         break;
      case F_AddAlias: st.syms += ok; break;
      case F_DataWriteDone:
         if( ok ) st.m = St::WInit;
         break;
      case F_DataReadDone:
         if( ok ) st.m = St::RInit;
         break;
      case F_DataReadRawStart:
         if( ok ) st.m = St::RRaw;
         break;
      case F_DataReadMapStart:
      case F_DataReadFilteredStart:
         if( ok ) st.m = St::RMap;
         break;
      case F_DataReadStrStart:
         if( ok ) st.m = St::RStr;
         break;
      case F_DataReadSliceStart:
         if( ok ) st.m = St::RSlice;
         break;
      case F_UELRegisterRawStart:
         if( ok ) st.m = St::RegRaw;
         break;
      case F_UELRegisterMapStart:
         if( ok ) st.m = St::RegMap;
         break;
      case F_UELRegisterStrStart:
         if( ok ) st.m = St::RegStr;
         break;
      case F_FilterRegisterStart:
         if( ok ) st.m = St::RegFilt;
         break;
      case F_UELRegisterDone:
      case F_FilterRegisterDone:
         if( ok ) st.m = st.writing ? St::WInit : St::RInit;
         break;
      case F_SystemInfo:
         if( ok ) st.syms = std::max( 0, std::min( 50, r.oi[0] ) );
         break;
      default: break;
   }
   // a refused call in a data mode now and then means the mode is not what we think
   if( !ok && ( x.fn == F_DataWriteStr || x.fn == F_DataReadRaw || x.fn == F_DataReadMap || x.fn == F_DataReadStr ) && st.m != St::Closed )
   {
      if( x.fn != F_DataWriteStr ) st.m = st.writing ? St::WInit : St::RInit;
   }
}
}
