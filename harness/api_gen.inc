// generated by meta/mkapi.py from generated/gdxcwrap.h
#ifdef VP_ENUM
enum Fn {F_AcronymAdd, F_AcronymCount, F_AcronymGetInfo, F_AcronymGetMapping, F_AcronymIndex, F_AcronymName, F_AcronymNextNr, F_AcronymSetInfo, F_AcronymValue, F_AddAlias, F_AddSetText, F_AutoConvert, F_Close, F_DataErrorCount, F_DataErrorRecord, F_DataErrorRecordX, F_DataReadDone, F_DataReadFilteredStart, F_DataReadMap, F_DataReadMapStart, F_DataReadRaw, F_DataReadRawFast, F_DataReadRawFastEx, F_DataReadRawFastFilt, F_DataReadRawStart, F_DataReadSlice, F_DataReadSliceStart, F_DataReadStr, F_DataReadStrStart, F_DataSliceUELS, F_DataWriteDone, F_DataWriteMap, F_DataWriteMapStart, F_DataWriteRaw, F_DataWriteRawStart, F_DataWriteRawStartKeyBounds, F_DataWriteStr, F_DataWriteStrStart, F_GetDLLVersion, F_ErrorCount, F_ErrorStr, F_FileInfo, F_FileVersion, F_FilterExists, F_FilterRegister, F_FilterRegisterDone, F_FilterRegisterStart, F_FindSymbol, F_GetElemText, F_GetLastError, F_GetMemoryUsed, F_GetSpecialValues, F_GetUEL, F_MapValue, F_OpenAppend, F_OpenRead, F_OpenReadEx, F_OpenWrite, F_OpenWriteEx, F_ResetSpecialValues, F_SetHasText, F_SetReadSpecialValues, F_SetSpecialValues, F_SetTextNodeNr, F_SetTraceLevel, F_SymbIndxMaxLength, F_SymbMaxLength, F_SymbolAddComment, F_SymbolGetComment, F_SymbolGetDomain, F_SymbolGetDomainX, F_SymbolDim, F_SymbolInfo, F_SymbolInfoX, F_SymbolSetDomain, F_SymbolSetDomainX, F_SystemInfo, F_UELMaxLength, F_UELRegisterDone, F_UELRegisterMap, F_UELRegisterMapStart, F_UELRegisterRaw, F_UELRegisterRawStart, F_UELRegisterStr, F_UELRegisterStrStart, F_UMFindUEL, F_UMUelGet, F_UMUelInfo, F_GetDomainElements, F_CurrentDim, F_RenameUEL, F_StoreDomainSets, F_StoreDomainSetsSet, F_AllowBogusDomains, F_AllowBogusDomainsSet, F_MapAcronymsToNaN, F_MapAcronymsToNaNSet, F_COUNT };
inline const FnInfo fnInfo[] = {
   {"gdxAcronymAdd", "ssi", true },
   {"gdxAcronymCount", "", false },
   {"gdxAcronymGetInfo", "iSSI", true },
   {"gdxAcronymGetMapping", "iIII", false },
   {"gdxAcronymIndex", "d", false },
   {"gdxAcronymName", "dS", true },
   {"gdxAcronymNextNr", "i", false },
   {"gdxAcronymSetInfo", "issi", true },
   {"gdxAcronymValue", "i", false },
   {"gdxAddAlias", "ss", true },
   {"gdxAddSetText", "sI", true },
   {"gdxAutoConvert", "i", false },
   {"gdxClose", "", false },
   {"gdxDataErrorCount", "", false },
   {"gdxDataErrorRecord", "iAV", false },
   {"gdxDataErrorRecordX", "iAV", false },
   {"gdxDataReadDone", "", false },
   {"gdxDataReadFilteredStart", "iaI", false },
   {"gdxDataReadMap", "iAVI", false },
   {"gdxDataReadMapStart", "iI", false },
   {"gdxDataReadRaw", "AVI", false },
   {"gdxDataReadRawFast", "icI", false },
   {"gdxDataReadRawFastEx", "icIu", false },
   {"gdxDataReadRawFastFilt", "itc", true },
   {"gdxDataReadRawStart", "iI", false },
   {"gdxDataReadSlice", "tIc", true },
   {"gdxDataReadSliceStart", "iA", false },
   {"gdxDataReadStr", "TVI", true },
   {"gdxDataReadStrStart", "iI", false },
   {"gdxDataSliceUELS", "aT", true },
   {"gdxDataWriteDone", "", false },
   {"gdxDataWriteMap", "av", false },
   {"gdxDataWriteMapStart", "ssiii", true },
   {"gdxDataWriteRaw", "av", false },
   {"gdxDataWriteRawStart", "ssiii", true },
   {"gdxDataWriteRawStartKeyBounds", "ssiiiaa", true },
   {"gdxDataWriteStr", "tv", true },
   {"gdxDataWriteStrStart", "ssiii", true },
   {"gdxGetDLLVersion", "S", true },
   {"gdxErrorCount", "", false },
   {"gdxErrorStr", "iS", true },
   {"gdxFileInfo", "II", false },
   {"gdxFileVersion", "SS", true },
   {"gdxFilterExists", "i", false },
   {"gdxFilterRegister", "i", false },
   {"gdxFilterRegisterDone", "", false },
   {"gdxFilterRegisterStart", "i", false },
   {"gdxFindSymbol", "sI", true },
   {"gdxGetElemText", "iSI", true },
   {"gdxGetLastError", "", false },
   {"gdxGetMemoryUsed", "", false },
   {"gdxGetSpecialValues", "V", false },
   {"gdxGetUEL", "iS", true },
   {"gdxMapValue", "dI", false },
   {"gdxOpenAppend", "ssI", true },
   {"gdxOpenRead", "sI", true },
   {"gdxOpenReadEx", "siI", true },
   {"gdxOpenWrite", "ssI", true },
   {"gdxOpenWriteEx", "ssiI", true },
   {"gdxResetSpecialValues", "", false },
   {"gdxSetHasText", "i", false },
   {"gdxSetReadSpecialValues", "v", false },
   {"gdxSetSpecialValues", "v", false },
   {"gdxSetTextNodeNr", "ii", false },
   {"gdxSetTraceLevel", "is", true },
   {"gdxSymbIndxMaxLength", "iA", false },
   {"gdxSymbMaxLength", "", false },
   {"gdxSymbolAddComment", "is", true },
   {"gdxSymbolGetComment", "iiS", true },
   {"gdxSymbolGetDomain", "iA", false },
   {"gdxSymbolGetDomainX", "iT", true },
   {"gdxSymbolDim", "i", false },
   {"gdxSymbolInfo", "iSII", true },
   {"gdxSymbolInfoX", "iIIS", true },
   {"gdxSymbolSetDomain", "t", true },
   {"gdxSymbolSetDomainX", "it", true },
   {"gdxSystemInfo", "II", false },
   {"gdxUELMaxLength", "", false },
   {"gdxUELRegisterDone", "", false },
   {"gdxUELRegisterMap", "is", true },
   {"gdxUELRegisterMapStart", "", false },
   {"gdxUELRegisterRaw", "s", true },
   {"gdxUELRegisterRawStart", "", false },
   {"gdxUELRegisterStr", "sI", true },
   {"gdxUELRegisterStrStart", "", false },
   {"gdxUMFindUEL", "sII", true },
   {"gdxUMUelGet", "iSI", true },
   {"gdxUMUelInfo", "II", false },
   {"gdxGetDomainElements", "iiicIu", false },
   {"gdxCurrentDim", "", false },
   {"gdxRenameUEL", "ss", true },
   {"gdxStoreDomainSets", "", false },
   {"gdxStoreDomainSetsSet", "i", false },
   {"gdxAllowBogusDomains", "", false },
   {"gdxAllowBogusDomainsSet", "i", false },
   {"gdxMapAcronymsToNaN", "", false },
   {"gdxMapAcronymsToNaNSet", "i", false },
};
#endif
#ifdef VP_ROUTE_CPP
   case F_AcronymAdd: r.ret = o.gdxAcronymAdd( x.s[0].c_str(), x.s[1].c_str(), x.i[0] );  break;
   case F_AcronymCount: r.ret = o.gdxAcronymCount(  );  break;
   case F_AcronymGetInfo: r.ret = o.gdxAcronymGetInfo( x.i[0], r.os[0], r.os[1], r.oi[0] );  break;
   case F_AcronymGetMapping: r.ret = o.gdxAcronymGetMapping( x.i[0], r.oi[0], r.oi[1], r.oi[2] );  break;
   case F_AcronymIndex: r.ret = o.gdxAcronymIndex( x.d );  break;
   case F_AcronymName: r.ret = o.gdxAcronymName( x.d, r.os[0] );  break;
   case F_AcronymNextNr: r.ret = o.gdxAcronymNextNr( x.i[0] );  break;
   case F_AcronymSetInfo: r.ret = o.gdxAcronymSetInfo( x.i[0], x.s[0].c_str(), x.s[1].c_str(), x.i[1] );  break;
   case F_AcronymValue: r.dret = o.gdxAcronymValue( x.i[0] );  break;
   case F_AddAlias: r.ret = o.gdxAddAlias( x.s[0].c_str(), x.s[1].c_str() );  break;
   case F_AddSetText: r.ret = o.gdxAddSetText( x.s[0].c_str(), r.oi[0] );  break;
   case F_AutoConvert: r.ret = o.gdxAutoConvert( x.i[0] );  break;
   case F_Close: r.ret = o.gdxClose(  );  break;
   case F_DataErrorCount: r.ret = o.gdxDataErrorCount(  );  break;
   case F_DataErrorRecord: r.ret = o.gdxDataErrorRecord( x.i[0], r.oa, r.od );  break;
   case F_DataErrorRecordX: r.ret = o.gdxDataErrorRecordX( x.i[0], r.oa, r.od );  break;
   case F_DataReadDone: r.ret = o.gdxDataReadDone(  );  break;
   case F_DataReadFilteredStart: r.ret = o.gdxDataReadFilteredStart( x.i[0], x.ia[0], r.oi[0] );  break;
   case F_DataReadMap: r.ret = o.gdxDataReadMap( x.i[0], r.oa, r.od, r.oi[0] );  break;
   case F_DataReadMapStart: r.ret = o.gdxDataReadMapStart( x.i[0], r.oi[0] );  break;
   case F_DataReadRaw: r.ret = o.gdxDataReadRaw( r.oa, r.od, r.oi[0] );  break;
   case F_DataReadRawFast: r.ret = o.gdxDataReadRawFast( x.i[0], (VPNS::TDataStoreProc_t) &cbPlain, r.oi[0] );  break;
   case F_DataReadRawFastEx: r.ret = o.gdxDataReadRawFastEx( x.i[0], (VPNS::TDataStoreExProc_t) &cbEx, r.oi[0], r.uptr() );  break;
   case F_DataReadRawFastFilt: r.ret = o.gdxDataReadRawFastFilt( x.i[0], const_cast<const char **>( x.ptrs() ), (VPNS::TDataStoreFiltProc_t) &cbFilt );  break;
   case F_DataReadRawStart: r.ret = o.gdxDataReadRawStart( x.i[0], r.oi[0] );  break;
   case F_DataReadSlice: r.ret = o.gdxDataReadSlice( const_cast<const char **>( x.ptrs() ), r.oi[0], (VPNS::TDataStoreProc_t) &cbPlain );  break;
   case F_DataReadSliceStart: r.ret = o.gdxDataReadSliceStart( x.i[0], r.oa );  break;
   case F_DataReadStr: r.ret = o.gdxDataReadStr( r.ptrs(), r.od, r.oi[0] );  break;
   case F_DataReadStrStart: r.ret = o.gdxDataReadStrStart( x.i[0], r.oi[0] );  break;
   case F_DataSliceUELS: r.ret = o.gdxDataSliceUELS( x.ia[0], r.ptrs() );  break;
   case F_DataWriteDone: r.ret = o.gdxDataWriteDone(  );  break;
   case F_DataWriteMap: r.ret = o.gdxDataWriteMap( x.ia[0], x.da );  break;
   case F_DataWriteMapStart: r.ret = o.gdxDataWriteMapStart( x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRaw: r.ret = o.gdxDataWriteRaw( x.ia[0], x.da );  break;
   case F_DataWriteRawStart: r.ret = o.gdxDataWriteRawStart( x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRawStartKeyBounds: r.ret = o.gdxDataWriteRawStartKeyBounds( x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2], x.ia[0], x.ia[1] );  break;
   case F_DataWriteStr: r.ret = o.gdxDataWriteStr( const_cast<const char **>( x.ptrs() ), x.da );  break;
   case F_DataWriteStrStart: r.ret = o.gdxDataWriteStrStart( x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_GetDLLVersion: r.ret = o.gdxGetDLLVersion( r.os[0] );  break;
   case F_ErrorCount: r.ret = o.gdxErrorCount(  );  break;
   case F_ErrorStr: r.ret = o.gdxErrorStr( x.i[0], r.os[0] );  break;
   case F_FileInfo: r.ret = o.gdxFileInfo( r.oi[0], r.oi[1] );  break;
   case F_FileVersion: r.ret = o.gdxFileVersion( r.os[0], r.os[1] );  break;
   case F_FilterExists: r.ret = o.gdxFilterExists( x.i[0] );  break;
   case F_FilterRegister: r.ret = o.gdxFilterRegister( x.i[0] );  break;
   case F_FilterRegisterDone: r.ret = o.gdxFilterRegisterDone(  );  break;
   case F_FilterRegisterStart: r.ret = o.gdxFilterRegisterStart( x.i[0] );  break;
   case F_FindSymbol: r.ret = o.gdxFindSymbol( x.s[0].c_str(), r.oi[0] );  break;
   case F_GetElemText: r.ret = o.gdxGetElemText( x.i[0], r.os[0], r.oi[0] );  break;
   case F_GetLastError: r.ret = o.gdxGetLastError(  );  break;
   case F_GetMemoryUsed: r.ret = o.gdxGetMemoryUsed(  );  break;
   case F_GetSpecialValues: r.ret = o.gdxGetSpecialValues( r.od );  break;
   case F_GetUEL: r.ret = o.gdxGetUEL( x.i[0], r.os[0] );  break;
   case F_MapValue: r.ret = o.gdxMapValue( x.d, r.oi[0] );  break;
   case F_OpenAppend: r.ret = o.gdxOpenAppend( x.s[0].c_str(), x.s[1].c_str(), r.oi[0] );  break;
   case F_OpenRead: r.ret = o.gdxOpenRead( x.s[0].c_str(), r.oi[0] );  break;
   case F_OpenReadEx: r.ret = o.gdxOpenReadEx( x.s[0].c_str(), x.i[0], r.oi[0] );  break;
   case F_OpenWrite: r.ret = o.gdxOpenWrite( x.s[0].c_str(), x.s[1].c_str(), r.oi[0] );  break;
   case F_OpenWriteEx: r.ret = o.gdxOpenWriteEx( x.s[0].c_str(), x.s[1].c_str(), x.i[0], r.oi[0] );  break;
   case F_ResetSpecialValues: r.ret = o.gdxResetSpecialValues(  );  break;
   case F_SetHasText: r.ret = o.gdxSetHasText( x.i[0] );  break;
   case F_SetReadSpecialValues: r.ret = o.gdxSetReadSpecialValues( x.da );  break;
   case F_SetSpecialValues: r.ret = o.gdxSetSpecialValues( x.da );  break;
   case F_SetTextNodeNr: r.ret = o.gdxSetTextNodeNr( x.i[0], x.i[1] );  break;
   case F_SetTraceLevel: r.ret = o.gdxSetTraceLevel( x.i[0], x.s[0].c_str() );  break;
   case F_SymbIndxMaxLength: r.ret = o.gdxSymbIndxMaxLength( x.i[0], r.oa );  break;
   case F_SymbMaxLength: r.ret = o.gdxSymbMaxLength(  );  break;
   case F_SymbolAddComment: r.ret = o.gdxSymbolAddComment( x.i[0], x.s[0].c_str() );  break;
   case F_SymbolGetComment: r.ret = o.gdxSymbolGetComment( x.i[0], x.i[1], r.os[0] );  break;
   case F_SymbolGetDomain: r.ret = o.gdxSymbolGetDomain( x.i[0], r.oa );  break;
   case F_SymbolGetDomainX: r.ret = o.gdxSymbolGetDomainX( x.i[0], r.ptrs() );  break;
   case F_SymbolDim: r.ret = o.gdxSymbolDim( x.i[0] );  break;
   case F_SymbolInfo: r.ret = o.gdxSymbolInfo( x.i[0], r.os[0], r.oi[0], r.oi[1] );  break;
   case F_SymbolInfoX: r.ret = o.gdxSymbolInfoX( x.i[0], r.oi[0], r.oi[1], r.os[0] );  break;
   case F_SymbolSetDomain: r.ret = o.gdxSymbolSetDomain( const_cast<const char **>( x.ptrs() ) );  break;
   case F_SymbolSetDomainX: r.ret = o.gdxSymbolSetDomainX( x.i[0], const_cast<const char **>( x.ptrs() ) );  break;
   case F_SystemInfo: r.ret = o.gdxSystemInfo( r.oi[0], r.oi[1] );  break;
   case F_UELMaxLength: r.ret = o.gdxUELMaxLength(  );  break;
   case F_UELRegisterDone: r.ret = o.gdxUELRegisterDone(  );  break;
   case F_UELRegisterMap: r.ret = o.gdxUELRegisterMap( x.i[0], x.s[0].c_str() );  break;
   case F_UELRegisterMapStart: r.ret = o.gdxUELRegisterMapStart(  );  break;
   case F_UELRegisterRaw: r.ret = o.gdxUELRegisterRaw( x.s[0].c_str() );  break;
   case F_UELRegisterRawStart: r.ret = o.gdxUELRegisterRawStart(  );  break;
   case F_UELRegisterStr: r.ret = o.gdxUELRegisterStr( x.s[0].c_str(), r.oi[0] );  break;
   case F_UELRegisterStrStart: r.ret = o.gdxUELRegisterStrStart(  );  break;
   case F_UMFindUEL: r.ret = o.gdxUMFindUEL( x.s[0].c_str(), r.oi[0], r.oi[1] );  break;
   case F_UMUelGet: r.ret = o.gdxUMUelGet( x.i[0], r.os[0], r.oi[0] );  break;
   case F_UMUelInfo: r.ret = o.gdxUMUelInfo( r.oi[0], r.oi[1] );  break;
   case F_GetDomainElements: r.ret = o.gdxGetDomainElements( x.i[0], x.i[1], x.i[2], (VPNS::TDomainIndexProc_t) &cbDom, r.oi[0], r.uptr() );  break;
   case F_CurrentDim: r.ret = o.gdxCurrentDim(  );  break;
   case F_RenameUEL: r.ret = o.gdxRenameUEL( x.s[0].c_str(), x.s[1].c_str() );  break;
   case F_StoreDomainSets: r.ret = o.gdxStoreDomainSets(  );  break;
   case F_StoreDomainSetsSet: o.gdxStoreDomainSetsSet( x.i[0] );  break;
   case F_AllowBogusDomains: r.ret = o.gdxAllowBogusDomains(  );  break;
   case F_AllowBogusDomainsSet: o.gdxAllowBogusDomainsSet( x.i[0] );  break;
   case F_MapAcronymsToNaN: r.ret = o.gdxMapAcronymsToNaN(  );  break;
   case F_MapAcronymsToNaNSet: o.gdxMapAcronymsToNaNSet( x.i[0] );  break;
#endif
#ifdef VP_ROUTE_C
   case F_AcronymAdd: r.ret = gdxAcronymAdd( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0] );  break;
   case F_AcronymCount: r.ret = gdxAcronymCount( o );  break;
   case F_AcronymGetInfo: r.ret = gdxAcronymGetInfo( o, x.i[0], r.os[0], r.os[1], &r.oi[0] );  break;
   case F_AcronymGetMapping: r.ret = gdxAcronymGetMapping( o, x.i[0], &r.oi[0], &r.oi[1], &r.oi[2] );  break;
   case F_AcronymIndex: r.ret = gdxAcronymIndex( o, x.d );  break;
   case F_AcronymName: r.ret = gdxAcronymName( o, x.d, r.os[0] );  break;
   case F_AcronymNextNr: r.ret = gdxAcronymNextNr( o, x.i[0] );  break;
   case F_AcronymSetInfo: r.ret = gdxAcronymSetInfo( o, x.i[0], x.s[0].c_str(), x.s[1].c_str(), x.i[1] );  break;
   case F_AcronymValue: r.dret = gdxAcronymValue( o, x.i[0] );  break;
   case F_AddAlias: r.ret = gdxAddAlias( o, x.s[0].c_str(), x.s[1].c_str() );  break;
   case F_AddSetText: r.ret = gdxAddSetText( o, x.s[0].c_str(), &r.oi[0] );  break;
   case F_AutoConvert: r.ret = gdxAutoConvert( o, x.i[0] );  break;
   case F_Close: r.ret = gdxClose( o );  break;
   case F_DataErrorCount: r.ret = gdxDataErrorCount( o );  break;
   case F_DataErrorRecord: r.ret = gdxDataErrorRecord( o, x.i[0], r.oa, r.od );  break;
   case F_DataErrorRecordX: r.ret = gdxDataErrorRecordX( o, x.i[0], r.oa, r.od );  break;
   case F_DataReadDone: r.ret = gdxDataReadDone( o );  break;
   case F_DataReadFilteredStart: r.ret = gdxDataReadFilteredStart( o, x.i[0], x.ia[0], &r.oi[0] );  break;
   case F_DataReadMap: r.ret = gdxDataReadMap( o, x.i[0], r.oa, r.od, &r.oi[0] );  break;
   case F_DataReadMapStart: r.ret = gdxDataReadMapStart( o, x.i[0], &r.oi[0] );  break;
   case F_DataReadRaw: r.ret = gdxDataReadRaw( o, r.oa, r.od, &r.oi[0] );  break;
   case F_DataReadRawFast: r.ret = gdxDataReadRawFast( o, x.i[0], (TDataStoreProc_t) &cbPlain, &r.oi[0] );  break;
   case F_DataReadRawFastEx: r.ret = gdxDataReadRawFastEx( o, x.i[0], (TDataStoreExProc_t) &cbEx, &r.oi[0], r.uptr() );  break;
   case F_DataReadRawFastFilt: r.ret = gdxDataReadRawFastFilt( o, x.i[0], const_cast<const char **>( x.ptrs() ), (TDataStoreFiltProc_t) &cbFilt );  break;
   case F_DataReadRawStart: r.ret = gdxDataReadRawStart( o, x.i[0], &r.oi[0] );  break;
   case F_DataReadSlice: r.ret = gdxDataReadSlice( o, const_cast<const char **>( x.ptrs() ), &r.oi[0], (TDataStoreProc_t) &cbPlain );  break;
   case F_DataReadSliceStart: r.ret = gdxDataReadSliceStart( o, x.i[0], r.oa );  break;
   case F_DataReadStr: r.ret = gdxDataReadStr( o, r.ptrs(), r.od, &r.oi[0] );  break;
   case F_DataReadStrStart: r.ret = gdxDataReadStrStart( o, x.i[0], &r.oi[0] );  break;
   case F_DataSliceUELS: r.ret = gdxDataSliceUELS( o, x.ia[0], r.ptrs() );  break;
   case F_DataWriteDone: r.ret = gdxDataWriteDone( o );  break;
   case F_DataWriteMap: r.ret = gdxDataWriteMap( o, x.ia[0], x.da );  break;
   case F_DataWriteMapStart: r.ret = gdxDataWriteMapStart( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRaw: r.ret = gdxDataWriteRaw( o, x.ia[0], x.da );  break;
   case F_DataWriteRawStart: r.ret = gdxDataWriteRawStart( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRawStartKeyBounds: r.ret = gdxDataWriteRawStartKeyBounds( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2], x.ia[0], x.ia[1] );  break;
   case F_DataWriteStr: r.ret = gdxDataWriteStr( o, const_cast<const char **>( x.ptrs() ), x.da );  break;
   case F_DataWriteStrStart: r.ret = gdxDataWriteStrStart( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0], x.i[1], x.i[2] );  break;
   case F_GetDLLVersion: r.ret = gdxGetDLLVersion( o, r.os[0] );  break;
   case F_ErrorCount: r.ret = gdxErrorCount( o );  break;
   case F_ErrorStr: r.ret = gdxErrorStr( o, x.i[0], r.os[0] );  break;
   case F_FileInfo: r.ret = gdxFileInfo( o, &r.oi[0], &r.oi[1] );  break;
   case F_FileVersion: r.ret = gdxFileVersion( o, r.os[0], r.os[1] );  break;
   case F_FilterExists: r.ret = gdxFilterExists( o, x.i[0] );  break;
   case F_FilterRegister: r.ret = gdxFilterRegister( o, x.i[0] );  break;
   case F_FilterRegisterDone: r.ret = gdxFilterRegisterDone( o );  break;
   case F_FilterRegisterStart: r.ret = gdxFilterRegisterStart( o, x.i[0] );  break;
   case F_FindSymbol: r.ret = gdxFindSymbol( o, x.s[0].c_str(), &r.oi[0] );  break;
   case F_GetElemText: r.ret = gdxGetElemText( o, x.i[0], r.os[0], &r.oi[0] );  break;
   case F_GetLastError: r.ret = gdxGetLastError( o );  break;
   case F_GetMemoryUsed: r.ret = gdxGetMemoryUsed( o );  break;
   case F_GetSpecialValues: r.ret = gdxGetSpecialValues( o, r.od );  break;
   case F_GetUEL: r.ret = gdxGetUEL( o, x.i[0], r.os[0] );  break;
   case F_MapValue: r.ret = gdxMapValue( o, x.d, &r.oi[0] );  break;
   case F_OpenAppend: r.ret = gdxOpenAppend( o, x.s[0].c_str(), x.s[1].c_str(), &r.oi[0] );  break;
   case F_OpenRead: r.ret = gdxOpenRead( o, x.s[0].c_str(), &r.oi[0] );  break;
   case F_OpenReadEx: r.ret = gdxOpenReadEx( o, x.s[0].c_str(), x.i[0], &r.oi[0] );  break;
   case F_OpenWrite: r.ret = gdxOpenWrite( o, x.s[0].c_str(), x.s[1].c_str(), &r.oi[0] );  break;
   case F_OpenWriteEx: r.ret = gdxOpenWriteEx( o, x.s[0].c_str(), x.s[1].c_str(), x.i[0], &r.oi[0] );  break;
   case F_ResetSpecialValues: r.ret = gdxResetSpecialValues( o );  break;
   case F_SetHasText: r.ret = gdxSetHasText( o, x.i[0] );  break;
   case F_SetReadSpecialValues: r.ret = gdxSetReadSpecialValues( o, x.da );  break;
   case F_SetSpecialValues: r.ret = gdxSetSpecialValues( o, x.da );  break;
   case F_SetTextNodeNr: r.ret = gdxSetTextNodeNr( o, x.i[0], x.i[1] );  break;
   case F_SetTraceLevel: r.ret = gdxSetTraceLevel( o, x.i[0], x.s[0].c_str() );  break;
   case F_SymbIndxMaxLength: r.ret = gdxSymbIndxMaxLength( o, x.i[0], r.oa );  break;
   case F_SymbMaxLength: r.ret = gdxSymbMaxLength( o );  break;
   case F_SymbolAddComment: r.ret = gdxSymbolAddComment( o, x.i[0], x.s[0].c_str() );  break;
   case F_SymbolGetComment: r.ret = gdxSymbolGetComment( o, x.i[0], x.i[1], r.os[0] );  break;
   case F_SymbolGetDomain: r.ret = gdxSymbolGetDomain( o, x.i[0], r.oa );  break;
   case F_SymbolGetDomainX: r.ret = gdxSymbolGetDomainX( o, x.i[0], r.ptrs() );  break;
   case F_SymbolDim: r.ret = gdxSymbolDim( o, x.i[0] );  break;
   case F_SymbolInfo: r.ret = gdxSymbolInfo( o, x.i[0], r.os[0], &r.oi[0], &r.oi[1] );  break;
   case F_SymbolInfoX: r.ret = gdxSymbolInfoX( o, x.i[0], &r.oi[0], &r.oi[1], r.os[0] );  break;
   case F_SymbolSetDomain: r.ret = gdxSymbolSetDomain( o, const_cast<const char **>( x.ptrs() ) );  break;
   case F_SymbolSetDomainX: r.ret = gdxSymbolSetDomainX( o, x.i[0], const_cast<const char **>( x.ptrs() ) );  break;
   case F_SystemInfo: r.ret = gdxSystemInfo( o, &r.oi[0], &r.oi[1] );  break;
   case F_UELMaxLength: r.ret = gdxUELMaxLength( o );  break;
   case F_UELRegisterDone: r.ret = gdxUELRegisterDone( o );  break;
   case F_UELRegisterMap: r.ret = gdxUELRegisterMap( o, x.i[0], x.s[0].c_str() );  break;
   case F_UELRegisterMapStart: r.ret = gdxUELRegisterMapStart( o );  break;
   case F_UELRegisterRaw: r.ret = gdxUELRegisterRaw( o, x.s[0].c_str() );  break;
   case F_UELRegisterRawStart: r.ret = gdxUELRegisterRawStart( o );  break;
   case F_UELRegisterStr: r.ret = gdxUELRegisterStr( o, x.s[0].c_str(), &r.oi[0] );  break;
   case F_UELRegisterStrStart: r.ret = gdxUELRegisterStrStart( o );  break;
   case F_UMFindUEL: r.ret = gdxUMFindUEL( o, x.s[0].c_str(), &r.oi[0], &r.oi[1] );  break;
   case F_UMUelGet: r.ret = gdxUMUelGet( o, x.i[0], r.os[0], &r.oi[0] );  break;
   case F_UMUelInfo: r.ret = gdxUMUelInfo( o, &r.oi[0], &r.oi[1] );  break;
   case F_GetDomainElements: r.ret = gdxGetDomainElements( o, x.i[0], x.i[1], x.i[2], (TDomainIndexProc_t) &cbDom, &r.oi[0], r.uptr() );  break;
   case F_CurrentDim: r.ret = gdxCurrentDim( o );  break;
   case F_RenameUEL: r.ret = gdxRenameUEL( o, x.s[0].c_str(), x.s[1].c_str() );  break;
   case F_StoreDomainSets: r.ret = gdxStoreDomainSets( o );  break;
   case F_StoreDomainSetsSet: gdxStoreDomainSetsSet( o, x.i[0] );  break;
   case F_AllowBogusDomains: r.ret = gdxAllowBogusDomains( o );  break;
   case F_AllowBogusDomainsSet: gdxAllowBogusDomainsSet( o, x.i[0] );  break;
   case F_MapAcronymsToNaN: r.ret = gdxMapAcronymsToNaN( o );  break;
   case F_MapAcronymsToNaNSet: gdxMapAcronymsToNaNSet( o, x.i[0] );  break;
#endif
#ifdef VP_ROUTE_D
   case F_AcronymAdd: r.ret = ( (int ( * )( void *, const char *, const char *, int )) sym( "d__gdxacronymadd" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0] );  break;
   case F_AcronymCount: r.ret = ( (int ( * )( void * )) sym( "c__gdxacronymcount" ) )( o );  break;
   case F_AcronymGetInfo: r.ret = ( (int ( * )( void *, int, char *, char *, int * )) sym( "d__gdxacronymgetinfo" ) )( o, x.i[0], r.os[0], r.os[1], &r.oi[0] ); unpas( r.os[0] ); unpas( r.os[1] ); break;
   case F_AcronymGetMapping: r.ret = ( (int ( * )( void *, int, int *, int *, int * )) sym( "c__gdxacronymgetmapping" ) )( o, x.i[0], &r.oi[0], &r.oi[1], &r.oi[2] );  break;
   case F_AcronymIndex: r.ret = ( (int ( * )( void *, double )) sym( "c__gdxacronymindex" ) )( o, x.d );  break;
   case F_AcronymName: r.ret = ( (int ( * )( void *, double, char * )) sym( "d__gdxacronymname" ) )( o, x.d, r.os[0] ); unpas( r.os[0] ); break;
   case F_AcronymNextNr: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxacronymnextnr" ) )( o, x.i[0] );  break;
   case F_AcronymSetInfo: r.ret = ( (int ( * )( void *, int, const char *, const char *, int )) sym( "d__gdxacronymsetinfo" ) )( o, x.i[0], pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[1] );  break;
   case F_AcronymValue: r.dret = ( (double ( * )( void *, int )) sym( "c__gdxacronymvalue" ) )( o, x.i[0] );  break;
   case F_AddAlias: r.ret = ( (int ( * )( void *, const char *, const char * )) sym( "d__gdxaddalias" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data() );  break;
   case F_AddSetText: r.ret = ( (int ( * )( void *, const char *, int * )) sym( "d__gdxaddsettext" ) )( o, pas( x.s[0] ).data(), &r.oi[0] );  break;
   case F_AutoConvert: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxautoconvert" ) )( o, x.i[0] );  break;
   case F_Close: r.ret = ( (int ( * )( void * )) sym( "c__gdxclose" ) )( o );  break;
   case F_DataErrorCount: r.ret = ( (int ( * )( void * )) sym( "c__gdxdataerrorcount" ) )( o );  break;
   case F_DataErrorRecord: r.ret = ( (int ( * )( void *, int, int *, double * )) sym( "c__gdxdataerrorrecord" ) )( o, x.i[0], r.oa, r.od );  break;
   case F_DataErrorRecordX: r.ret = ( (int ( * )( void *, int, int *, double * )) sym( "c__gdxdataerrorrecordx" ) )( o, x.i[0], r.oa, r.od );  break;
   case F_DataReadDone: r.ret = ( (int ( * )( void * )) sym( "c__gdxdatareaddone" ) )( o );  break;
   case F_DataReadFilteredStart: r.ret = ( (int ( * )( void *, int, const int *, int * )) sym( "c__gdxdatareadfilteredstart" ) )( o, x.i[0], x.ia[0], &r.oi[0] );  break;
   case F_DataReadMap: r.ret = ( (int ( * )( void *, int, int *, double *, int * )) sym( "c__gdxdatareadmap" ) )( o, x.i[0], r.oa, r.od, &r.oi[0] );  break;
   case F_DataReadMapStart: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxdatareadmapstart" ) )( o, x.i[0], &r.oi[0] );  break;
   case F_DataReadRaw: r.ret = ( (int ( * )( void *, int *, double *, int * )) sym( "c__gdxdatareadraw" ) )( o, r.oa, r.od, &r.oi[0] );  break;
   case F_DataReadRawFast: r.ret = ( (int ( * )( void *, int, void *, int * )) sym( "c__gdxdatareadrawfast" ) )( o, x.i[0], (void *) &cbPlain, &r.oi[0] );  break;
   case F_DataReadRawFastEx: r.ret = ( (int ( * )( void *, int, void *, int *, void * )) sym( "c__gdxdatareadrawfastex" ) )( o, x.i[0], (void *) &cbEx, &r.oi[0], r.uptr() );  break;
   case F_DataReadRawFastFilt: r.ret = ( (int ( * )( void *, int, const char *, void * )) sym( "d__gdxdatareadrawfastfilt" ) )( o, x.i[0], pasv( x.ss ).data(), (void *) &cbFilt );  break;
   case F_DataReadRawStart: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxdatareadrawstart" ) )( o, x.i[0], &r.oi[0] );  break;
   case F_DataReadSlice: r.ret = ( (int ( * )( void *, const char *, int *, void * )) sym( "d__gdxdatareadslice" ) )( o, pasv( x.ss ).data(), &r.oi[0], (void *) &cbPlain );  break;
   case F_DataReadSliceStart: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxdatareadslicestart" ) )( o, x.i[0], r.oa );  break;
   case F_DataReadStr: r.ret = ( (int ( * )( void *, char *, double *, int * )) sym( "d__gdxdatareadstr" ) )( o, r.oss[0], r.od, &r.oi[0] ); for( auto &q: r.oss ) unpas( q ); break;
   case F_DataReadStrStart: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxdatareadstrstart" ) )( o, x.i[0], &r.oi[0] );  break;
   case F_DataSliceUELS: r.ret = ( (int ( * )( void *, const int *, char * )) sym( "d__gdxdatasliceuels" ) )( o, x.ia[0], r.oss[0] ); for( auto &q: r.oss ) unpas( q ); break;
   case F_DataWriteDone: r.ret = ( (int ( * )( void * )) sym( "c__gdxdatawritedone" ) )( o );  break;
   case F_DataWriteMap: r.ret = ( (int ( * )( void *, const int *, const double * )) sym( "c__gdxdatawritemap" ) )( o, x.ia[0], x.da );  break;
   case F_DataWriteMapStart: r.ret = ( (int ( * )( void *, const char *, const char *, int, int, int )) sym( "d__gdxdatawritemapstart" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRaw: r.ret = ( (int ( * )( void *, const int *, const double * )) sym( "c__gdxdatawriteraw" ) )( o, x.ia[0], x.da );  break;
   case F_DataWriteRawStart: r.ret = ( (int ( * )( void *, const char *, const char *, int, int, int )) sym( "d__gdxdatawriterawstart" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0], x.i[1], x.i[2] );  break;
   case F_DataWriteRawStartKeyBounds: r.ret = ( (int ( * )( void *, const char *, const char *, int, int, int, const int *, const int * )) sym( "d__gdxdatawriterawstartkeybounds" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0], x.i[1], x.i[2], x.ia[0], x.ia[1] );  break;
   case F_DataWriteStr: r.ret = ( (int ( * )( void *, const char *, const double * )) sym( "d__gdxdatawritestr" ) )( o, pasv( x.ss ).data(), x.da );  break;
   case F_DataWriteStrStart: r.ret = ( (int ( * )( void *, const char *, const char *, int, int, int )) sym( "d__gdxdatawritestrstart" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0], x.i[1], x.i[2] );  break;
   case F_GetDLLVersion: r.ret = ( (int ( * )( void *, char * )) sym( "d__gdxgetdllversion" ) )( o, r.os[0] ); unpas( r.os[0] ); break;
   case F_ErrorCount: r.ret = ( (int ( * )( void * )) sym( "c__gdxerrorcount" ) )( o );  break;
   case F_ErrorStr: r.ret = ( (int ( * )( void *, int, char * )) sym( "d__gdxerrorstr" ) )( o, x.i[0], r.os[0] ); unpas( r.os[0] ); break;
   case F_FileInfo: r.ret = ( (int ( * )( void *, int *, int * )) sym( "c__gdxfileinfo" ) )( o, &r.oi[0], &r.oi[1] );  break;
   case F_FileVersion: r.ret = ( (int ( * )( void *, char *, char * )) sym( "d__gdxfileversion" ) )( o, r.os[0], r.os[1] ); unpas( r.os[0] ); unpas( r.os[1] ); break;
   case F_FilterExists: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxfilterexists" ) )( o, x.i[0] );  break;
   case F_FilterRegister: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxfilterregister" ) )( o, x.i[0] );  break;
   case F_FilterRegisterDone: r.ret = ( (int ( * )( void * )) sym( "c__gdxfilterregisterdone" ) )( o );  break;
   case F_FilterRegisterStart: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxfilterregisterstart" ) )( o, x.i[0] );  break;
   case F_FindSymbol: r.ret = ( (int ( * )( void *, const char *, int * )) sym( "d__gdxfindsymbol" ) )( o, pas( x.s[0] ).data(), &r.oi[0] );  break;
   case F_GetElemText: r.ret = ( (int ( * )( void *, int, char *, int * )) sym( "d__gdxgetelemtext" ) )( o, x.i[0], r.os[0], &r.oi[0] ); unpas( r.os[0] ); break;
   case F_GetLastError: r.ret = ( (int ( * )( void * )) sym( "c__gdxgetlasterror" ) )( o );  break;
   case F_GetMemoryUsed: r.ret = ( (long ( * )( void * )) sym( "c__gdxgetmemoryused" ) )( o );  break;
   case F_GetSpecialValues: r.ret = ( (int ( * )( void *, double * )) sym( "c__gdxgetspecialvalues" ) )( o, r.od );  break;
   case F_GetUEL: r.ret = ( (int ( * )( void *, int, char * )) sym( "d__gdxgetuel" ) )( o, x.i[0], r.os[0] ); unpas( r.os[0] ); break;
   case F_MapValue: r.ret = ( (int ( * )( void *, double, int * )) sym( "c__gdxmapvalue" ) )( o, x.d, &r.oi[0] );  break;
   case F_OpenAppend: r.ret = ( (int ( * )( void *, const char *, const char *, int * )) sym( "d__gdxopenappend" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), &r.oi[0] );  break;
   case F_OpenRead: r.ret = ( (int ( * )( void *, const char *, int * )) sym( "d__gdxopenread" ) )( o, pas( x.s[0] ).data(), &r.oi[0] );  break;
   case F_OpenReadEx: r.ret = ( (int ( * )( void *, const char *, int, int * )) sym( "d__gdxopenreadex" ) )( o, pas( x.s[0] ).data(), x.i[0], &r.oi[0] );  break;
   case F_OpenWrite: r.ret = ( (int ( * )( void *, const char *, const char *, int * )) sym( "d__gdxopenwrite" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), &r.oi[0] );  break;
   case F_OpenWriteEx: r.ret = ( (int ( * )( void *, const char *, const char *, int, int * )) sym( "d__gdxopenwriteex" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data(), x.i[0], &r.oi[0] );  break;
   case F_ResetSpecialValues: r.ret = ( (int ( * )( void * )) sym( "c__gdxresetspecialvalues" ) )( o );  break;
   case F_SetHasText: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxsethastext" ) )( o, x.i[0] );  break;
   case F_SetReadSpecialValues: r.ret = ( (int ( * )( void *, const double * )) sym( "c__gdxsetreadspecialvalues" ) )( o, x.da );  break;
   case F_SetSpecialValues: r.ret = ( (int ( * )( void *, const double * )) sym( "c__gdxsetspecialvalues" ) )( o, x.da );  break;
   case F_SetTextNodeNr: r.ret = ( (int ( * )( void *, int, int )) sym( "c__gdxsettextnodenr" ) )( o, x.i[0], x.i[1] );  break;
   case F_SetTraceLevel: r.ret = ( (int ( * )( void *, int, const char * )) sym( "d__gdxsettracelevel" ) )( o, x.i[0], pas( x.s[0] ).data() );  break;
   case F_SymbIndxMaxLength: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxsymbindxmaxlength" ) )( o, x.i[0], r.oa );  break;
   case F_SymbMaxLength: r.ret = ( (int ( * )( void * )) sym( "c__gdxsymbmaxlength" ) )( o );  break;
   case F_SymbolAddComment: r.ret = ( (int ( * )( void *, int, const char * )) sym( "d__gdxsymboladdcomment" ) )( o, x.i[0], pas( x.s[0] ).data() );  break;
   case F_SymbolGetComment: r.ret = ( (int ( * )( void *, int, int, char * )) sym( "d__gdxsymbolgetcomment" ) )( o, x.i[0], x.i[1], r.os[0] ); unpas( r.os[0] ); break;
   case F_SymbolGetDomain: r.ret = ( (int ( * )( void *, int, int * )) sym( "c__gdxsymbolgetdomain" ) )( o, x.i[0], r.oa );  break;
   case F_SymbolGetDomainX: r.ret = ( (int ( * )( void *, int, char * )) sym( "d__gdxsymbolgetdomainx" ) )( o, x.i[0], r.oss[0] ); for( auto &q: r.oss ) unpas( q ); break;
   case F_SymbolDim: r.ret = ( (int ( * )( void *, int )) sym( "c__gdxsymboldim" ) )( o, x.i[0] );  break;
   case F_SymbolInfo: r.ret = ( (int ( * )( void *, int, char *, int *, int * )) sym( "d__gdxsymbolinfo" ) )( o, x.i[0], r.os[0], &r.oi[0], &r.oi[1] ); unpas( r.os[0] ); break;
   case F_SymbolInfoX: r.ret = ( (int ( * )( void *, int, int *, int *, char * )) sym( "d__gdxsymbolinfox" ) )( o, x.i[0], &r.oi[0], &r.oi[1], r.os[0] ); unpas( r.os[0] ); break;
   case F_SymbolSetDomain: r.ret = ( (int ( * )( void *, const char * )) sym( "d__gdxsymbolsetdomain" ) )( o, pasv( x.ss ).data() );  break;
   case F_SymbolSetDomainX: r.ret = ( (int ( * )( void *, int, const char * )) sym( "d__gdxsymbolsetdomainx" ) )( o, x.i[0], pasv( x.ss ).data() );  break;
   case F_SystemInfo: r.ret = ( (int ( * )( void *, int *, int * )) sym( "c__gdxsysteminfo" ) )( o, &r.oi[0], &r.oi[1] );  break;
   case F_UELMaxLength: r.ret = ( (int ( * )( void * )) sym( "c__gdxuelmaxlength" ) )( o );  break;
   case F_UELRegisterDone: r.ret = ( (int ( * )( void * )) sym( "c__gdxuelregisterdone" ) )( o );  break;
   case F_UELRegisterMap: r.ret = ( (int ( * )( void *, int, const char * )) sym( "d__gdxuelregistermap" ) )( o, x.i[0], pas( x.s[0] ).data() );  break;
   case F_UELRegisterMapStart: r.ret = ( (int ( * )( void * )) sym( "c__gdxuelregistermapstart" ) )( o );  break;
   case F_UELRegisterRaw: r.ret = ( (int ( * )( void *, const char * )) sym( "d__gdxuelregisterraw" ) )( o, pas( x.s[0] ).data() );  break;
   case F_UELRegisterRawStart: r.ret = ( (int ( * )( void * )) sym( "c__gdxuelregisterrawstart" ) )( o );  break;
   case F_UELRegisterStr: r.ret = ( (int ( * )( void *, const char *, int * )) sym( "d__gdxuelregisterstr" ) )( o, pas( x.s[0] ).data(), &r.oi[0] );  break;
   case F_UELRegisterStrStart: r.ret = ( (int ( * )( void * )) sym( "c__gdxuelregisterstrstart" ) )( o );  break;
   case F_UMFindUEL: r.ret = ( (int ( * )( void *, const char *, int *, int * )) sym( "d__gdxumfinduel" ) )( o, pas( x.s[0] ).data(), &r.oi[0], &r.oi[1] );  break;
   case F_UMUelGet: r.ret = ( (int ( * )( void *, int, char *, int * )) sym( "d__gdxumuelget" ) )( o, x.i[0], r.os[0], &r.oi[0] ); unpas( r.os[0] ); break;
   case F_UMUelInfo: r.ret = ( (int ( * )( void *, int *, int * )) sym( "c__gdxumuelinfo" ) )( o, &r.oi[0], &r.oi[1] );  break;
   case F_GetDomainElements: r.ret = ( (int ( * )( void *, int, int, int, void *, int *, void * )) sym( "c__gdxgetdomainelements" ) )( o, x.i[0], x.i[1], x.i[2], (void *) &cbDom, &r.oi[0], r.uptr() );  break;
   case F_CurrentDim: r.ret = ( (int ( * )( void * )) sym( "c__gdxcurrentdim" ) )( o );  break;
   case F_RenameUEL: r.ret = ( (int ( * )( void *, const char *, const char * )) sym( "d__gdxrenameuel" ) )( o, pas( x.s[0] ).data(), pas( x.s[1] ).data() );  break;
   case F_StoreDomainSets: r.ret = ( (int ( * )( void * )) sym( "c__gdxstoredomainsets" ) )( o );  break;
   case F_StoreDomainSetsSet: ( (void ( * )( void *, int )) sym( "c__gdxstoredomainsetsset" ) )( o, x.i[0] );  break;
   case F_AllowBogusDomains: r.ret = ( (int ( * )( void * )) sym( "c__gdxallowbogusdomains" ) )( o );  break;
   case F_AllowBogusDomainsSet: ( (void ( * )( void *, int )) sym( "c__gdxallowbogusdomainsset" ) )( o, x.i[0] );  break;
   case F_MapAcronymsToNaN: r.ret = ( (int ( * )( void * )) sym( "c__gdxmapacronymstonan" ) )( o );  break;
   case F_MapAcronymsToNaNSet: ( (void ( * )( void *, int )) sym( "c__gdxmapacronymstonanset" ) )( o, x.i[0] );  break;
#endif
