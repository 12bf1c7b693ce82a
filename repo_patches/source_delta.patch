From e2eff8b6e78a283f0f540e23c6663d6b537e8104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 01/96] fix: reset previous keys when starting to read the
 universe

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..a429fcc 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -979,11 +979,13 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
       return 1;
    }
 
+   // also for the universe: keys of an earlier mapped read must not leak into the first changed dimension
+   std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
+
    if( !ReadUniverse )
    {
       CurSyPtr->SScalarFrst = false;
       std::fill_n( LastElem.begin(), FCurrentDim, INDEX_INITIAL );
-      std::fill_n( PrevElem.begin(), FCurrentDim, -1 );
       for( int D {}; D < FCurrentDim; D++ )
       {
          MinElem[D] = FFile->ReadInteger();
-- 
2.43.0


From 9b8f84189c537c07bfd32b2d095a57a3049f95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:16 +0000
Subject: [PATCH 02/96] fix: mapped read fills every key position, not only the
 changed ones

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a429fcc..f4fb2fd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2834,7 +2834,8 @@ again:
    if( DimFrst > 0 )
    {
       bool loopDone {};
-      for( int D { DimFrst - 1 }; D < FCurrentDim && !loopDone; D++ )
+      // all positions, not only the changed ones: KeyInt belongs to the caller and need not hold the previous keys
+      for( int D {}; D < FCurrentDim && !loopDone; D++ )
       {
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
-- 
2.43.0


From e65ebf1b4a4a3c4f7990b00728682805ac4f6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:34 +0000
Subject: [PATCH 03/96] fix: a refused start of a symbol write no longer drops
 the symbol being written

---
 src/gxfile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f4fb2fd..cf2cb92 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -730,12 +730,13 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   // a refused call must not disturb a symbol that is being written
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
-- 
2.43.0


From b4c5430461b2b51653e3eb8d5731c6fd67f938dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:34 +0000
Subject: [PATCH 04/96] fix: close completes the file when a symbol has no
 records yet or labels are being registered

---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index cf2cb92..4b1c217 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,7 +537,9 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) && fmode_AftReg == fw_init )// unfinished registration
+      fmode = fw_init;
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
-- 
2.43.0


From 28a695ac4a7c9d8425a918e59a4b419097cb6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:16 +0000
Subject: [PATCH 05/96] fix: a refused read call no longer turns a write
 session or a closed object into a read session

---
 src/gxfile.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4b1c217..9b1cf26 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -883,17 +883,18 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
-   NrMappedAdded = 0;
-   ErrorList = nullptr;
-   CurSyPtr = nullptr;
-   SortList = nullptr;
-
    if( !MajorCheckMode( Caller, fr_init ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;// never turn a write session into a read session
       return -1;
    }
+
+   NrMappedAdded = 0;
+   ErrorList = nullptr;
+   CurSyPtr = nullptr;
+   SortList = nullptr;
+
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1781,14 +1782,14 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
-   SortList = nullptr;
-   CurSyPtr = nullptr;
    if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;// never turn a write session into a read session
       return false;
    }
+   SortList = nullptr;
+   CurSyPtr = nullptr;
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From 6c3e5e9a767c8f068b7213c3b164dda523c9b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:25 +0000
Subject: [PATCH 06/96] fix: callback and slice reads refuse a bad symbol
 number instead of reading from nothing

---
 src/gxfile.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9b1cf26..a7d3971 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3141,7 +3141,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3306,7 +3306,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
 
@@ -3669,8 +3669,8 @@ int TGXFileObj::gdxDataReadRawFastFilt( int SyNr, const char **UelFilterStr, TDa
          }
          res = true;
       }
+      gdxDataReadDone();
    }
-   gdxDataReadDone();
    return res;
 }
 
@@ -3678,6 +3678,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3693,6 +3694,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From f6b84f2e0c8df2bb90d01b6788f1736808a9970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:52 +0000
Subject: [PATCH 07/96] fix: slicing with an unknown label no longer ends the
 slice read

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a7d3971..8a62fbf 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3363,8 +3363,8 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
          if( ElemNrs[D] < 0 ) GoodIndx = false;
       }
    }
+   if( !GoodIndx ) return false;// nothing selected; further slices can still be read
    fmode = fr_init;
-   if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
    TgdxValues Values;
-- 
2.43.0


From 67af6c91e3f52b455f2e7c8e4e46a08e1c4b3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:14 +0000
Subject: [PATCH 08/96] fix: refuse a user index that is negative or already
 taken by another element

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8a62fbf..57d88e6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3795,6 +3795,9 @@ int TUELTable::AddUsrNew( const char *s, size_t slen )
 
 int TUELTable::AddUsrIndxNew( const char *s, size_t slen, int UelNr )
 {
+   if( UelNr < 0 ) return -1;
+   // different elements must not share a user index
+   if( const int Other { UsrUel2Ent->GetMapping( UelNr ) }; Other >= 0 && Other != IndexOf( s ) ) return -1;
    const int EN { AddObject( s, slen, -1 ) };
    int res { *GetObject( EN ) };
    if( res < 0 )
-- 
2.43.0


From 132f9e1ebb40fc31b66375c331383422b213559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:25 +0000
Subject: [PATCH 09/96] fix: mapped read into an unsorted user space checks the
 label number range

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 57d88e6..9580102 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1031,7 +1031,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 )
+                  if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
-- 
2.43.0


From 38604b8c27ec318155b6aa452ca0adb8e2c0c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:45 +0000
Subject: [PATCH 10/96] fix: acronym calls refuse a table position out of range

The range test joined its two bounds with 'or', so it never failed and a
bad position was used to index the acronym table.
---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9580102..f01e1c6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3001,7 +3001,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3037,7 +3037,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From decacbc7e2a919a0be4c0dbd217a8bf44b39d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:45 +0000
Subject: [PATCH 11/96] fix: adding an acronym again returns zero as documented

It returned the zero-based position of the existing entry, which a caller
takes for the one-based position of a different, newly added entry.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f01e1c6..ba6e52a 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3234,7 +3234,7 @@ int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
       {
          // NOTE: Not covered by unit tests yet.
          if( ErrorCondition( obj.AcrMap == AIndx, ERR_ACROBADADDITION ) ) return -1;
-         return N;
+         return 0;
       }
       if( ErrorCondition( obj.AcrMap != AIndx, ERR_ACROBADADDITION ) ) return -1;
    }
-- 
2.43.0


From cf6d78b90680b8b899b9a8c326fcdee421ecd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:45 +0000
Subject: [PATCH 12/96] fix: acronyms mapped to NA use the reader's NA value

With gdxSetReadSpecialValues in effect, acronyms came back as a different
number than NA itself.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ba6e52a..9da3441 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1475,7 +1475,7 @@ double TGXFileObj::AcronymRemap( double V )
 {
    auto GetAsAcronym = [&]( double v ) {
       if(MapAcrToNaN)
-         return intlValueMapDbl[GMS_SVIDX_NA];
+         return readIntlValueMapDbl[vm_valna];
 
       const int orgIndx { ( utils::round<int>( v / Zvalacr ) ) };
       int newIndx {};
-- 
2.43.0


From e7fcb012105435f1a16bc6ac2d6cc8d7755c6fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:00 +0000
Subject: [PATCH 13/96] fix: a very long label with trailing blanks no longer
 overruns the trim buffer

Labels of more than 255 characters are refused later, but trimming copied
them into a 256 byte buffer first.
---
 src/gdlib/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..c1fd21b 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -176,8 +176,10 @@ const char *trimRight( const char *s,
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
    if( ++slen == i ) return s;
-   std::memcpy( storage, s, slen );
-   storage[slen] = '\0';
+   // storage is a short string; slen still tells the caller that the text is longer
+   const int n { std::min( slen, 255 ) };
+   std::memcpy( storage, s, n );
+   storage[n] = '\0';
    return storage;
 }
 
-- 
2.43.0


From 41ee75903b1c3507f8cb405f125b552c33b8382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:12 +0000
Subject: [PATCH 14/96] fix: checking for domain data follows aliases to the
 aliased set

With bogus domains disallowed, an alias of the universe indexed the symbol
table at zero and an alias of an alias was always refused.
---
 src/gxfile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9da3441..7124ac0 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2499,10 +2499,11 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
          SyNr = DomSy;
          do {
             const auto *obj = ( *NameList->GetObject( SyNr ) );
+            // aliases are followed until a set (or the universe) is reached
             if(!AllowBogusDomain &&
                 obj->SDim == 1 &&
-                in(obj->SDataType, dt_set, dt_alias) &&
-                !(obj->SDataType == dt_alias ? *NameList->GetObject( obj->SUserInfo ) : obj)->SSetBitMap)
+                obj->SDataType == dt_set &&
+                !obj->SSetBitMap)
             {
                ReportError( ERR_NODOMAINDATA );
                return false;
-- 
2.43.0


From 29f5b0f5744593efe264302bd59e39b89377c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:23 +0000
Subject: [PATCH 15/96] fix: a refused domain leaves no part of it on the
 symbol

The positions handled before the refusal kept checking records and the
symbol was stored as having a regular domain.
---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7124ac0..db35556 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2506,6 +2506,8 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
                 !obj->SSetBitMap)
             {
                ReportError( ERR_NODOMAINDATA );
+               CurSyPtr->SDomSymbols = nullptr;
+               WrBitMaps.fill( nullptr );
                return false;
             }
             if( obj->SDataType == dt_set ) break;
-- 
2.43.0


From 3b413c2bfec744583e504cf8062c89b0af530513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:34 +0000
Subject: [PATCH 16/96] fix: refuse a set with several dimensions as a regular
 domain

The documentation asks for a one-dimensional set or an alias; a larger set
was accepted and silently not used for checking.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index db35556..ecc26d7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2510,7 +2510,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
                WrBitMaps.fill( nullptr );
                return false;
             }
-            if( obj->SDataType == dt_set ) break;
+            if( obj->SDataType == dt_set && obj->SDim == 1 ) break;
             if( obj->SDataType == dt_alias )
             {
                SyNr = obj->SUserInfo;
-- 
2.43.0


From 5bd7fc993e681dd15469cfee391f21b01704d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:52 +0000
Subject: [PATCH 17/96] fix: no current symbol after close or after opening a
 file

Closing while a symbol was being read left a dangling current symbol, and
opening for append made the last symbol of the file current, so a comment
for the current symbol went to freed memory or to the wrong symbol.
---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ecc26d7..3bdb935 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -642,6 +642,7 @@ int TGXFileObj::gdxClose()
       }
       NameList = nullptr;
    }
+   CurSyPtr = nullptr;
 
    FFile = nullptr;
    SetTextList = nullptr;
@@ -2002,6 +2003,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       CurSyPtr->SDomStrings = nullptr;
       CurSyPtr->SSyNr = NameList->StoreObject( S.data(), Slen, CurSyPtr );
    }
+   CurSyPtr = nullptr;// no symbol is being read or written yet
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
 
    // reading UEL table
-- 
2.43.0


From 3265b80e380adb127aa0097feb633c816c645b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:38 +0000
Subject: [PATCH 18/96] fix: a string cut to a given length is terminated

---
 src/gdlib/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..37e66ac 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -706,7 +706,8 @@ inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSiz
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
 {
    if( slen + 1 > outBufSize ) return;
-   std::memcpy( buf, s, slen + 1 );
+   std::memcpy( buf, s, slen );
+   buf[slen] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From cbefd0fb5ee918026f6f934729f6e3ca9440c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 19/96] fix: calls without an open file fail instead of
 dereferencing nothing

---
 src/gxfile.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 3bdb935..863dd8e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2381,7 +2381,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2390,7 +2390,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2560,7 +2560,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -2981,7 +2981,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -3006,7 +3006,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3042,7 +3042,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3129,7 +3129,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3232,6 +3232,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_ACROBADADDITION ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3262,7 +3263,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
@@ -3534,6 +3535,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
+   if( !NameList ) return acc;
    for( int N { 1 }; N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
@@ -3576,7 +3578,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 59e53886b7d39adf4a6b34edd6e8e721989f5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:38 +0000
Subject: [PATCH 20/96] fix: a second record for a scalar is reported as a
 duplicate

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 863dd8e..87e4e69 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1280,7 +1280,7 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
    }
    if( FDim > FCurrentDim )
    {
-      if( FCurrentDim > 0 && DataCount >= 1 )
+      if( DataCount >= 1 )
       {
          ReportError( ERR_DATADUPLICATE );
          AddToErrorList( AElements, AVals );
-- 
2.43.0


From 5908342c2145491eb50496fc81af0ee23bfaaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:12 +0000
Subject: [PATCH 21/96] fix: a mapped read asked again after the last record
 does not read on

---
 src/gxfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 87e4e69..5b2a1a2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -895,6 +895,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
    ErrorList = nullptr;
    CurSyPtr = nullptr;
    SortList = nullptr;
+   ReadPtr = std::nullopt;
 
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
@@ -2837,7 +2838,12 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    int FIDim { FCurrentDim };
 
 again:
-   if( !DoRead( Values, DimFrst ) ) return false;
+   if( !DoRead( Values, DimFrst ) )
+   {// nothing behind the last record: do not read on
+      ReadPtr = std::nullopt;
+      fmode = fr_map_data;
+      return false;
+   }
    if( FIDim < DimFrst ) DimFrst = FIDim;
    FIDim = FCurrentDim;
    if( DimFrst > 0 )
-- 
2.43.0


From 20e1fcb04704a31b49e54801795f08b122d17770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:00 +0000
Subject: [PATCH 22/96] fix: a string longer than 255 characters no longer
 overruns the stream's string buffer

---
 src/gdlib/gmsstrm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..b49ddb2 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -247,10 +247,13 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf;
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   // a length byte followed by at most 255 characters
+   const auto len {std::min<size_t>( s.length(), 255 )};
+   buf[0] = static_cast<char>( len );
+   std::memcpy( &buf[1], s.data(), len );
+   Write( buf.data(), static_cast<uint32_t>( len ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
-- 
2.43.0


From 2d4313d2ba9a5106a176df198d86aede777407b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:15 +0000
Subject: [PATCH 23/96] fix: labels mapped by an unfinished read are forgotten
 at close

A count of labels mapped during a read that was never finished survived the
close and was applied to the label table of the next file.
---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 5b2a1a2..b5a3084 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -643,6 +643,7 @@ int TGXFileObj::gdxClose()
       NameList = nullptr;
    }
    CurSyPtr = nullptr;
+   NrMappedAdded = 0;
 
    FFile = nullptr;
    SetTextList = nullptr;
-- 
2.43.0


From 2c89157f04c27cf867881179b7fa27278ddf3c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:55 +0000
Subject: [PATCH 24/96] fix: reading past the end of a cut-off file no longer
 returns left-over memory

Values, strings and compressed blocks that the file ends in are zero, empty or
absent, so opening such a file fails with an error instead of looping, throwing
or overrunning a buffer.
---
 src/gdlib/gmsstrm.cpp | 16 ++++++++--------
 src/gdlib/gmsstrm.hpp |  9 +++++----
 src/gxfile.cpp        |  4 ++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index b49ddb2..dfb8595 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -354,9 +354,7 @@ std::string TXStream::ReadString()
    if( !Read( &len, 1 ) || !len ) return ""s;
    std::string s;
    s.resize( len );
-   Read( s.data(), len );
-   if(len != s.size())
-      s.resize( len );
+   s.resize( Read( s.data(), len ) );// may end early at the end of the file
    return s;
 }
 
@@ -365,10 +363,11 @@ void TXStream::ReadSString(char *s, uint8_t &len)
    if( Paranoid ) ParCheck( RWType::rw_string );
    if( !Read( &len, 1 ) || !len )
    {
+      len = 0;
       s[0] = '\0';
       return;
    }
-   Read( s, len );
+   len = static_cast<uint8_t>( Read( s, len ) );// may end early at the end of the file
    s[len] = '\0';
 }
 
@@ -610,13 +609,14 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
+         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = WLen <= BufSize ? TXFileStream::Read( BufPtr.data(), WLen ) : 0;
          else
          {
-            TXFileStream::Read( &CBufPtr->cxData, WLen );
             unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
-            NrLoaded = ui32(XLen);
+            // a block that is cut off or damaged holds no data
+            const bool good { WLen <= CBufSize && TXFileStream::Read( &CBufPtr->cxData, WLen ) == WLen &&
+                              uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) == Z_OK };
+            NrLoaded = good ? ui32(XLen) : 0;
          }
       }
    }
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..d1adfdf 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -133,7 +133,7 @@ protected:
    T ReadValue( RWType rwt )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// zero when there is nothing left to read
 #if !defined( NDEBUG ) && defined(__IN_CPPMEX__)
       auto numBytesRead { Read( &res, sizeof( T ) ) };
       // is not required to generally hold and code automatically detects EOF otherwise
@@ -282,11 +282,11 @@ class TMiBufferedStream : public TBufferedFileStream
    T ReadValueOrdered( RWType rwt, bool order_type )
    {
       if( Paranoid ) ParCheck( rwt );
-      T res;
+      T res {};// zero when there is nothing left to read
       if( !order_type ) Read( &res, sizeof( T ) );
       else
       {
-         T tmp;
+         T tmp {};
          Read( &tmp, sizeof( T ) );
          reverseBytesMax8( &tmp, &res, sizeof( T ) );
       }
@@ -296,7 +296,8 @@ class TMiBufferedStream : public TBufferedFileStream
    template<typename T>
    void initOrderCommon( uint8_t &order_type, uint8_t &size_type, T patConstant )
    {
-      T v1, v2;
+      T v1 {}, v2 {};
+      size_type = 0;
       Read( &size_type, sizeof( uint8_t ) );
       if( size_type != sizeof( T ) )
       {
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index b5a3084..09318d7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1414,7 +1414,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
       return true;
    }
 
-   uint8_t B;
+   uint8_t B {255};// no more data when the file ends here
    FFile->Read( &B, 1 );
    if( B > DeltaForRead )
    {// relative change in last dimension
@@ -1447,7 +1447,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    {
       for( int DV { GMS_VAL_LEVEL }; DV <= LastDataField; DV++ )
       {
-         uint8_t BSV;
+         uint8_t BSV {};
          FFile->Read( &BSV, 1 );
          TgdxIntlValTyp SV { static_cast<TgdxIntlValTyp>( BSV ) };
          // Delphi doesn't bound check here and just writes adjacent junk
-- 
2.43.0


From 5341bf16900804aa7408091ac1a3797c95b87a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:25 +0000
Subject: [PATCH 25/96] fix: a file that could not be opened leaves nothing
 behind in the object

A failed open kept symbol and label tables, and a text renumbering table that
was then applied to the next file opened.
---
 src/gdx.hpp    |  1 +
 src/gxfile.cpp | 51 +++++++++++++++++++++++++++-----------------------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 4bdb1da..15ec6a5 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1817,6 +1817,7 @@ bool PrepareSymbolWrite( std::string_view Caller, const char *AName, const char
 int PrepareSymbolRead( std::string_view Caller, int SyNr, const int *ADomainNrs, TgxFileMode newmode );
 
 void InitErrors();
+void FreeFileData();
 void SetError( int N );
 void ReportError( int N );
 bool ErrorCondition( bool cnd, int N );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 09318d7..1a8dd2d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -531,6 +531,32 @@ int TGXFileObj::gdxDataWriteDone()
    return true;
 }
 
+void TGXFileObj::FreeFileData()
+{
+   // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
+   if( NameList )
+   {
+      for( int N { 1 }; N <= NameList->Count(); N++ )
+      {
+         const auto PSy = *NameList->GetObject( N );
+         delete PSy;
+      }
+      NameList = nullptr;
+   }
+   CurSyPtr = nullptr;
+   NrMappedAdded = 0;
+
+   FFile = nullptr;
+   SetTextList = nullptr;
+   UELTable = nullptr;
+   SortList = nullptr;
+   DomainStrList = nullptr;
+   ErrorList = nullptr;
+   FilterList = nullptr;
+   AcronymList = nullptr;
+   MapSetText = nullptr;
+}
+
 int TGXFileObj::gdxClose()
 {
    if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -632,28 +658,7 @@ int TGXFileObj::gdxClose()
 
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
-   // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
-   if( NameList )
-   {
-      for( int N { 1 }; N <= NameList->Count(); N++ )
-      {
-         const auto PSy = *NameList->GetObject( N );
-         delete PSy;
-      }
-      NameList = nullptr;
-   }
-   CurSyPtr = nullptr;
-   NrMappedAdded = 0;
-
-   FFile = nullptr;
-   SetTextList = nullptr;
-   UELTable = nullptr;
-   SortList = nullptr;
-   DomainStrList = nullptr;
-   ErrorList = nullptr;
-   FilterList = nullptr;
-   AcronymList = nullptr;
-   MapSetText = nullptr;
+   FreeFileData();
 
    fmode = f_not_open;
    fstatus = stat_notopen;
@@ -1881,7 +1886,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      FreeFileData();// nothing of a file that could not be opened stays behind
       return false;
    };
 
-- 
2.43.0


From f139faa3d0dfdd10afeecffa48e5bf1c5b085aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:04 +0000
Subject: [PATCH 26/96] fix: close reports a failed write

The last buffer was written after the result was taken, a successful (skipped)
conversion overwrote the error, and a partial write was not seen as an error.
---
 src/gxfile.cpp      |  3 ++-
 src/rtl/p3utils.cpp | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 1a8dd2d..0397c84 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -656,6 +656,7 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
+   if( FFile && !fnConv.empty() ) FFile->FlushBuffer();// so that all write errors are known
    int res { FFile ? FFile->GetLastIOResult() : 1 };
 
    FreeFileData();
@@ -663,7 +664,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( AutoConvert && !res && !fnConv.empty() )// there is nothing to convert when writing failed
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 9ba4173..0da6f46 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -536,12 +536,19 @@ int p3FileWrite( Tp3FileHandle h, const char *buffer, uint32_t buflen, uint32_t
          res = EIO;
    }
 #else
-   if ( const auto rc = write( h, buffer, buflen ); rc < 0) {
-      res = errno;
-      numWritten = 0;
+   // a partial write is continued, so the reason for not writing everything is known
+   numWritten = 0;
+   while( numWritten < buflen )
+   {
+      const auto rc = write( h, buffer + numWritten, buflen - numWritten );
+      if( rc < 0 && errno == EINTR ) continue;
+      if( rc <= 0 )
+      {
+         res = rc < 0 ? errno : EIO;
+         break;
+      }
+      numWritten += ui32( rc );
    }
-   else
-      numWritten = ui32(rc);
 #endif
    return res;
 }
-- 
2.43.0


From f093f7e70570c4df90d3c4968ee44bf4b67a9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:12 +0000
Subject: [PATCH 27/96] fix: the size of a file stream is the size of the file,
 not zero

With a size of zero the end of the file was reported at every buffer boundary.
---
 src/gdlib/gmsstrm.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index dfb8595..2bd458a 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -487,13 +487,9 @@ std::string TXFileStream::RandString( int L )
 
 int64_t TXFileStream::GetSize()
 {
-#ifdef __IN_CPPMEX__
-   int64_t res;
+   int64_t res {};
    SetLastIOResult( p3FileGetSize( FS, res ) );
    return res;
-#else
-   return 0;
-#endif
 }
 
 int64_t TXFileStream::GetPosition()
-- 
2.43.0


From 255b16812c13370d8ad0a78f67be22f868f05207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:12 +0000
Subject: [PATCH 28/96] fix: opening a cut-off or damaged file checks counts,
 dimensions and symbol numbers

---
 src/gdlib/gmsstrm.hpp |  4 +---
 src/gdlib/strhash.hpp | 14 ++++++++------
 src/gxfile.cpp        | 30 +++++++++++++++++++++---------
 src/gxfile.hpp        |  2 +-
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index d1adfdf..72b4d21 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -251,10 +251,8 @@ class TBufferedFileStream : public TXFileStream
 
    bool FillBuffer();
 
-protected:
-   int64_t GetSize() override;
-
 public:
+   int64_t GetSize() override;
    TBufferedFileStream( const std::string &FileName, uint16_t Mode );
    ~TBufferedFileStream() override;
    bool FlushBuffer();
diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index a672173..b7d7fb9 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -32,6 +32,8 @@
 #include "datastorage.hpp"
 #include "gmsdata.hpp"
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <string>
 #include <cassert>
@@ -370,10 +372,10 @@ public:
    }
 
    template<typename T2>
-   void LoadFromStream( T2 &s )
+   void LoadFromStream( T2 &s, const int maxCount = std::numeric_limits<int>::max() )
    {
       Clear();
-      const int Cnt { s.ReadInteger() };
+      const int Cnt { std::min( static_cast<int>( s.ReadInteger() ), maxCount ) };
       SetCapacity( Cnt );
       for( int N {}; N < Cnt; N++ )
       {
@@ -527,10 +529,10 @@ inline int TXStrHashList<int>::Add( const char *s, size_t slen )
 
 template<>
 template<typename T2>
-void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
+void TXStrHashList<uint8_t>::LoadFromStream( T2 &s, const int maxCount )
 {
    Clear();
-   const int Cnt { s.ReadInteger() };
+   const int Cnt { std::min( static_cast<int>( s.ReadInteger() ), maxCount ) };
    SetCapacity( Cnt );
    for( int N {}; N < Cnt; N++ )
    {
@@ -543,10 +545,10 @@ void TXStrHashList<uint8_t>::LoadFromStream( T2 &s )
 
 template<>
 template<typename T2>
-inline void TXStrHashList<int>::LoadFromStream( T2 &s )
+inline void TXStrHashList<int>::LoadFromStream( T2 &s, const int maxCount )
 {
    Clear();
-   const int Cnt { s.ReadInteger() };
+   const int Cnt { std::min( static_cast<int>( s.ReadInteger() ), maxCount ) };
    SetCapacity( Cnt );
    for( int N {}; N < Cnt; N++ )
    {
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0397c84..34264a2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1960,7 +1960,11 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    FFile->SetCompression( DoUncompress );
    FFile->SetPosition( SymbPos );
    if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER1 ) ) return FileErrorNr();
+   // every table entry takes at least one byte, and zlib never shrinks data by more than this factor
+   const int64_t FileSize { FFile->GetSize() };
+   const int MaxEntries { static_cast<int>( std::min<int64_t>( std::numeric_limits<int>::max(), DoUncompress ? FileSize * 1032 : FileSize ) ) };
    int NrElem { FFile->ReadInteger() };
+   if( ErrorCondition( NrElem >= 0 && NrElem <= MaxEntries, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
    NameList = std::make_unique<TNameList>();
    NameList->OneBased = true;
    NameList->SetCapacity( NrElem );
@@ -1976,6 +1980,11 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       CurSyPtr->SPosition = VersionRead <= 5 ? FFile->ReadInteger() : FFile->ReadInt64();
       CurSyPtr->SDim = FFile->ReadInteger();
       uint8_t B { FFile->ReadByte() };
+      if( ErrorCondition( CurSyPtr->SDim >= 0 && CurSyPtr->SDim <= GLOBAL_MAX_INDEX_DIM && B <= dt_alias && !FFile->IsEof(), ERR_OPEN_SYMBOLMARKER2 ) )
+      {
+         delete CurSyPtr;
+         return FileErrorNr();
+      }
       CurSyPtr->SDataType = static_cast<gdxSyType>( B );
       CurSyPtr->SUserInfo = FFile->ReadInteger();
       CurSyPtr->SDataCount = FFile->ReadInteger();
@@ -1998,7 +2007,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          if( NrElem > 0 )
          {
             CurSyPtr->SCommentsList = std::make_optional<TCommentsList>();
-            for( ; NrElem > 0; NrElem-- )
+            for( ; NrElem > 0 && !FFile->IsEof(); NrElem-- )
             {
                sstring s;
                uint8_t slen;
@@ -2025,11 +2034,12 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
    NrElem = FFile->ReadInteger();
    // subtract 2*6 bytes for MARK_UEL ("_UEL_\0") and 4 bytes for UEL count integer
    const auto uelLabelStrBytes { VersionRead >= 7 ? AcronymPos-UELPos - 6 * 2 - 4 : 0 };
-   UELTable->SetCapacity( NrElem, uelLabelStrBytes );
+   if( ErrorCondition( NrElem >= 0 && NrElem <= MaxEntries, ERR_OPEN_UELMARKER2 ) ) return FileErrorNr();
+   UELTable->SetCapacity( NrElem, std::clamp<int64_t>( uelLabelStrBytes, 0, FileSize ) );
    // bug for pre 2002
    if( substr( FileSystemID, 15, 4 ) == "2001"s ) NrElem--;
 
-   while( UELTable->size() < NrElem )
+   while( UELTable->size() < NrElem && !FFile->IsEof() )
    {
       uint8_t slen;
       sstring s;
@@ -2052,8 +2062,9 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       // set text table (when there) is always before UEL table
       // subtract bytes for length (4-byte) and twice 7 chars MARK_SETT (_SETT_\0)
       const auto setTextStrBytes { UELPos - SetTextPos - 7 * 2 - 4 };
-      SetTextList->SetCapacity( NrElem, setTextStrBytes );
-      for( int N {}; N < NrElem; N++ )
+      if( ErrorCondition( NrElem >= 0 && NrElem <= MaxEntries, ERR_OPEN_TEXTMARKER2 ) ) return FileErrorNr();
+      SetTextList->SetCapacity( NrElem, std::clamp<int64_t>( setTextStrBytes, 0, FileSize ) );
+      for( int N {}; N < NrElem && !FFile->IsEof(); N++ )
       {
          uint8_t slen;
          sstring s;
@@ -2080,7 +2091,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       FFile->SetCompression( DoUncompress );
       FFile->SetPosition( AcronymPos );
       if( ErrorCondition( FFile->ReadString() == MARK_ACRO, ERR_OPEN_ACROMARKER1 ) ) return FileErrorNr();
-      AcronymList->LoadFromStream( *FFile );
+      AcronymList->LoadFromStream( *FFile, MaxEntries );
       if( ErrorCondition( FFile->ReadString() == MARK_ACRO, ERR_OPEN_ACROMARKER2 ) ) return FileErrorNr();
    }
 
@@ -2092,12 +2103,13 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       FFile->SetCompression( DoUncompress );
       FFile->SetPosition( DomStrPos );
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER1 ) ) return FileErrorNr();
-      DomainStrList->LoadFromStream<TXStream>( *FFile );
+      DomainStrList->LoadFromStream<TXStream>( *FFile, MaxEntries );
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER2 ) ) return FileErrorNr();
       while( true )
       {
          const int SyNr = FFile->ReadInteger();
          if( SyNr <= 0 ) break;
+         if( ErrorCondition( SyNr <= NameList->Count(), ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
          const auto sym = *NameList->GetObject( SyNr );
          sym->SDomStrings = std::make_unique<int[]>( sym->SDim );
          for( int D {}; D < sym->SDim; D++ )
@@ -3997,9 +4009,9 @@ void TAcronymList::SaveToStream( TXStream &S )
       FList[N]->SaveToStream( S );
 }
 
-void TAcronymList::LoadFromStream( TXStream &S )
+void TAcronymList::LoadFromStream( TXStream &S, const int maxCount )
 {
-   const int Cnt { S.ReadInteger() };
+   const int Cnt { std::clamp( S.ReadInteger(), 0, maxCount ) };
    FList.Clear();
    FList.SetCapacity( Cnt );
    if(useBatchAlloc)
diff --git a/src/gxfile.hpp b/src/gxfile.hpp
index 1e638bd..a6a433a 100644
--- a/src/gxfile.hpp
+++ b/src/gxfile.hpp
@@ -308,7 +308,7 @@ public:
    int AddEntry( const char *Name, const char *Text, int Map );
    void CheckEntry( int Map );
    void SaveToStream( gdlib::gmsstrm::TXStream &S );
-   void LoadFromStream( gdlib::gmsstrm::TXStream &S );
+   void LoadFromStream( gdlib::gmsstrm::TXStream &S, int maxCount = std::numeric_limits<int>::max() );
    int MemoryUsed();
    [[nodiscard]] int size() const;
    TAcronym &operator[]( int Index );
-- 
2.43.0


From 0eaac026fa0b97b4ddff9f7faecb52cdf794706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:37 +0000
Subject: [PATCH 29/96] fix: a refused append to an old file returns its error
 code

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 34264a2..7a672bc 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3482,7 +3482,8 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
    if( !res || ErrNr != 0 ) return res;
    if( VersionRead < 7 )
    {
-      ReportError( ERR_FILETOOLDFORAPPEND );
+      ErrNr = ERR_FILETOOLDFORAPPEND;
+      ReportError( ErrNr );
       gdxClose();
       return 0;
    }
-- 
2.43.0


From 2de70cca189df8b60da9480b91ddd2bfa5d21f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 30/96] fix: refuse to append to a file with another byte order

---
 src/gdlib/gmsstrm.cpp | 5 +++++
 src/gdlib/gmsstrm.hpp | 1 +
 src/gxfile.cpp        | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 2bd458a..d60eff1 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -875,6 +875,11 @@ bool TMiBufferedStream::IntsNeedFlip() const
    return order_integer;
 }
 
+bool TMiBufferedStream::DoublesNeedFlip() const
+{
+   return order_double;
+}
+
 void TMiBufferedStream::WriteGmsInteger( int N )
 {
 #ifdef WF_TEXT
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 72b4d21..9445878 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -327,6 +327,7 @@ public:
    int64_t ReadInt64() override;
    [[nodiscard]] bool WordsNeedFlip() const;
    [[nodiscard]] bool IntsNeedFlip() const;
+   [[nodiscard]] bool DoublesNeedFlip() const;
    void WriteGmsInteger( int N );
    void WriteGmsDouble( double D );
    int ReadGmsInteger();
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 7a672bc..17133a7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3487,6 +3487,13 @@ int TGXFileObj::gdxOpenAppend( const char *FileName, const char *Producer, int &
       gdxClose();
       return 0;
    }
+   if( FFile->WordsNeedFlip() || FFile->IntsNeedFlip() || FFile->DoublesNeedFlip() )
+   {// data is always written in native byte order
+      ErrNr = ERR_BADDATAFORMAT;
+      ReportError( ErrNr );
+      gdxClose();
+      return 0;
+   }
    fmode = fw_init;
    fstatus = stat_write;
    FFile->SetPosition( NextWritePosition );
-- 
2.43.0


From 51125720babbaa09c7efffc6416c705195535423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:03 +0000
Subject: [PATCH 31/96] fix: a set text number beyond the text table is not
 looked up in the text map

---
 src/gdx.hpp    | 1 +
 src/gxfile.cpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gdx.hpp b/src/gdx.hpp
index 15ec6a5..861c2c8 100644
--- a/src/gdx.hpp
+++ b/src/gdx.hpp
@@ -1757,6 +1757,7 @@ int fComprLev {};
 std::unique_ptr<TUELTable> UELTable;
 std::unique_ptr<TSetTextList> SetTextList {};
 std::unique_ptr<int[]> MapSetText {};
+int MapSetTextSize {};
 int FCurrentDim {};
 std::array<int, GLOBAL_MAX_INDEX_DIM> LastElem {}, PrevElem {}, MinElem {}, MaxElem {};
 std::array<std::array<char, GLOBAL_UEL_IDENT_SIZE>, GLOBAL_MAX_INDEX_DIM> LastStrElem {};
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 17133a7..cade786 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1471,7 +1471,7 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
          // NOTE: Not covered by unit tests yet.
          const double X { AVals[GMS_VAL_LEVEL] };
          if( const int D { ( utils::round<int>( X ) ) };
-            std::abs( X - D ) < 1e-12 && D >= 0 && D <= SetTextList->GetCapacity() )
+            std::abs( X - D ) < 1e-12 && D >= 0 && D < MapSetTextSize )
             AVals[GMS_VAL_LEVEL] = MapSetText[D];
       }
       if( verboseTrace && TraceLevel >= TraceLevels::trl_all )
@@ -2076,6 +2076,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
             if( !MapSetText )
             {
                MapSetText = std::make_unique<int[]>( NrElem );
+               MapSetTextSize = NrElem;
                for( int D {}; D < N; D++ )
                   MapSetText[D] = D;
             }
-- 
2.43.0


From 20fe8eba3074793a181298ff7e2a174bb7ca65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 32/96] fix: appending to a file with repeated set texts keeps
 the text numbers of the existing records

---
 src/gxfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index cade786..ce3f7e3 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2069,7 +2069,8 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
          uint8_t slen;
          sstring s;
          FFile->ReadSString( s.data(), slen );
-         if( const int TextNum { SetTextList->Add( s.data(), slen ) };
+         // appending keeps repeated texts, since the numbers in the records already written refer to them
+         if( const int TextNum { filemode == fmOpenReadWrite ? SetTextList->StoreObject( s.data(), slen, 0 ) : SetTextList->Add( s.data(), slen ) };
             TextNum != N )
          {// duplicates stored in GDX file, e.g. empty string
             // NOTE: Not covered by unit tests yet.
-- 
2.43.0


From 61e9e428fbf4be1cd8899440db87e220038c1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:53 +0000
Subject: [PATCH 33/96] fix: slice labels of unregistered element numbers are
 not read past the label table; a new slice read forgets the old selection

---
 src/gxfile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ce3f7e3..0db2536 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3349,6 +3349,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    {
       SliceIndxs[D].reset();
       SliceRevMap[D].reset();
+      SliceElems[D].clear();
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
@@ -3435,8 +3436,10 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
             KeyStr[D][0] = '?';
             KeyStr[D][1] = '\0';
          }
-         else
+         else if( N >= 1 && N <= UELTable->size() )
             assignPCharToBuf( ( *UELTable )[N], KeyStr[D] );
+         else
+            std::snprintf( KeyStr[D], GMS_UEL_IDENT_SIZE, "%s%d", BADUEL_PREFIX.c_str(), N );
       }
    }
    return true;
-- 
2.43.0


From c5ea8789d7e7ed5641ceb41f1548e36914c51166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:13 +0000
Subject: [PATCH 34/96] fix: element numbers outside the label table are
 refused when collecting domain elements and in rejected mapped records

---
 src/gxfile.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0db2536..ae3444d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1040,7 +1040,7 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
                {
                   assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
                   const auto &obj = DomainList[D];
-                  if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+                  if( LastElem[D] < ( UELTable->OneBased ? 1 : 0 ) || LastElem[D] >= UELTable->size() + ( UELTable->OneBased ? 1 : 0 ) )
                   {
                      // NOTE: Not covered by unit tests yet.
                      ReportError( ERR_BADELEMENTINDEX );
@@ -2876,7 +2876,7 @@ again:
          assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          const auto &obj = DomainList[D];
          // AS: Should this also be appended to the data error list???
-         if( LastElem[D] < 0 || LastElem[D] >= UELTable->size() + (UELTable->OneBased?1:0) )
+         if( LastElem[D] < ( UELTable->OneBased ? 1 : 0 ) || LastElem[D] >= UELTable->size() + ( UELTable->OneBased ? 1 : 0 ) )
          {
             ReportError( ERR_BADELEMENTINDEX );
             BadError = true;
@@ -2931,7 +2931,7 @@ again:
    {
       for( int D {}; D < FCurrentDim; D++ )
       {
-         if( LastElem[D] < 0 )
+         if( LastElem[D] < ( UELTable->OneBased ? 1 : 0 ) || LastElem[D] >= UELTable->size() + ( UELTable->OneBased ? 1 : 0 ) )
          {
             // NOTE: Not covered by unit tests yet.
             ReportError( ERR_BADELEMENTINDEX );
@@ -3180,6 +3180,11 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    {
       assert( DimPos >= 1 && DimPos <= GLOBAL_MAX_INDEX_DIM );
       const int RawNr { LastElem[DimPos - 1] };
+      if( ErrorCondition( RawNr >= 1 && RawNr <= UELTable->size(), ERR_BADELEMENTINDEX ) )
+      {
+         gdxDataReadDone();
+         return false;
+      }
       if( DFilter )
       {
          if( const int MapNr { UELTable->GetUserMap( RawNr ) }; !DFilter->InFilter( MapNr ) )
-- 
2.43.0


From 4f7576c13fd1b47fa981a35b0730e86f9108feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:41 +0000
Subject: [PATCH 35/96] fix: raw writing refuses keys outside the bounds the
 symbol's keys are stored with

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index ae3444d..1ff6cfe 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2252,6 +2252,9 @@ int TGXFileObj::gdxDataWriteRaw( const int *KeyInt, const double *Values )
 {
    if( fmode == fw_dom_raw ) fmode = fw_raw_data;
    if( ( TraceLevel >= TraceLevels::trl_some || fmode != fw_raw_data ) && !CheckMode( "DataWriteRaw"s, fw_raw_data ) ) return false;
+   // keys are stored relative to the bounds of the symbol: others would be read back as different keys
+   for( int D {}; D < FCurrentDim; D++ )
+      if( ErrorCondition( KeyInt[D] >= MinElem[D] && KeyInt[D] <= MaxElem[D], ERR_BADELEMENTINDEX ) ) return false;
    if( DoWrite( KeyInt, Values ) ) return true;
    return false;
 }
-- 
2.43.0


From 219f1de2cabfac3a9d11e7ff3f911515d796e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:02 +0000
Subject: [PATCH 36/96] fix: a string that does not fit a caller's buffer is
 cut and terminated, not dropped

---
 src/gdlib/utils.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 37e66ac..862b248 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,10 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   // truncate when exceeding
+   const size_t len { std::min<size_t>( s.length(), outBufSize - 1 ) };
+   std::memcpy( buf, s.c_str(), len );
+   buf[len] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
-- 
2.43.0


From eaebeb860852dc171d4dfc4a900313018e50a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 37/96] fix: messages dropped in release builds no longer go to
 one stream shared by all threads

---
 src/gdlib/utils.cpp | 2 +-
 src/gdlib/utils.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index c1fd21b..c42989e 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -48,7 +48,7 @@ using namespace std::literals::string_literals;
 // Implementation
 // ==============================================================================================================
 #if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
+thread_local std::ostream debugStream { nullptr };
 #endif
 
 namespace utils
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 862b248..b63a465 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,8 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+// messages nobody looks at: dropped, and not shared between threads
+extern thread_local std::ostream debugStream;
 #endif
 
 namespace utils
-- 
2.43.0


From 2b5fa0690c44968fe93fe661ce52bf3c38f5766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 38/96] fix: scratch buffers of object functions are not shared
 between threads

---
 src/gxfile.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 1ff6cfe..0d5458d 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1532,8 +1532,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2175,7 +2175,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2642,7 +2642,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2662,7 +2662,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2806,7 +2806,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3635,7 +3635,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From f8c06d0a3273b3f76e2075edee80e3ff61263f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:13 +0000
Subject: [PATCH 39/96] fix: the tools pass the size of their message buffer,
 not the length of the empty message

---
 src/tools/gdxdiff/gdxdiff.cpp   | 4 ++--
 src/tools/gdxdump/gdxdump.cpp   | 4 ++--
 src/tools/gdxmerge/gdxmerge.cpp | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index e57c664..47e994a 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -127,7 +127,7 @@ void OpenGDX(const std::string &fn, gdxHandle_t &PGX) {
   }
 
   library::ShortString S;
-  if (gdxCreate(&PGX, S.data(), S.length()) == 0) {
+  if (gdxCreate(&PGX, S.data(), GMS_SSSIZE) == 0) {
     FatalError("Cannot load GDX library " + S, static_cast<int>(ErrorCode::ERR_LOADDLL));
   }
 
@@ -995,7 +995,7 @@ int main(const int argc, const char *argv[]) {
   }
 
   library::ShortString S2;
-  if (gdxCreate(&PGXDIF, S2.data(), S2.length()) == 0) {
+  if (gdxCreate(&PGXDIF, S2.data(), GMS_SSSIZE) == 0) {
     FatalError("Unable to load GDX library: " + S2, static_cast<int>(ErrorCode::ERR_LOADDLL));
   }
 
diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 827d7a6..ae0ac97 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -1352,13 +1352,13 @@ int main(const int argc, const char *argv[]) {
   {
     library::ShortString error_message;
 
-    if (gdxGetReady(error_message.data(), error_message.length()) == 0) {
+    if (gdxGetReady(error_message.data(), GMS_SSSIZE) == 0) {
       library::printErrorMessage("Error loading GDX library: " + error_message);
       ExitCode = 3;
       goto End;
     }
 
-    if (gdxCreate(&PGX, error_message.data(), error_message.length()) == 0) {
+    if (gdxCreate(&PGX, error_message.data(), GMS_SSSIZE) == 0) {
       library::printErrorMessage("Error using GDX library: " + error_message);
       ExitCode = 3;
       goto End;
diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 1daf28b..aaee2e3 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -95,7 +95,7 @@ SymbolList::SymbolList()
   StrPool->Add(empty_string.data(), empty_string.length());
   fileList = std::make_unique<FileList<GDXFileEntry>>();
   library::ShortString Msg;
-  gdxCreate(&PGXMerge, Msg.data(), Msg.length());
+  gdxCreate(&PGXMerge, Msg.data(), GMS_SSSIZE);
 }
 
 SymbolList::~SymbolList() {
@@ -172,7 +172,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
   FileId = fileList->FileId(FNr);
 
   std::cout << "Reading file: " << FileName << '\n';
-  gdxCreate(&PGX, ErrMsg.data(), ErrMsg.length());
+  gdxCreate(&PGX, ErrMsg.data(), GMS_SSSIZE);
   gdxOpenRead(PGX, FileName.data(), &ErrNr);
   if (ErrNr != 0) {
     gdxErrorStr(PGX, ErrNr, ErrMsg.data());
@@ -320,7 +320,7 @@ bool SymbolList::CollectBigOne(const int SyNr) {
   for (FNr = 0; FNr < fileList->size(); FNr++) {
     FileName = fileList->FileName(FNr);
     FileId = fileList->FileId(FNr);
-    gdxCreate(&PGX, ErrMsg.data(), ErrMsg.length());
+    gdxCreate(&PGX, ErrMsg.data(), GMS_SSSIZE);
     gdxOpenRead(PGX, FileName.data(), &ErrNr);
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
@@ -722,7 +722,7 @@ int main(const int argc, const char *argv[]) {
     return {};
   }
 
-  if (gdxGetReady(Msg.data(), Msg.length()) == 0) {
+  if (gdxGetReady(Msg.data(), GMS_SSSIZE) == 0) {
     library::printErrorMessage("*** Error: Unable to load gdx library, message:\n" + Msg);
     return 1;
   }
-- 
2.43.0


From c6c480c488839f09fcd9f3f7328d8cff849f23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:34 +0000
Subject: [PATCH 40/96] fix: gdxdump prints the acronyms numbered from one, so
 the last one is no longer lost

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index ae0ac97..bf25c46 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -989,7 +989,7 @@ void WriteAcronyms() {
   }
 
   fo << '\n';
-  for (int N{}; N < Cnt; N++) {
+  for (int N{1}; N <= Cnt; N++) {
     gdxAcronymGetInfo(PGX, N, sName.data(), sText.data(), &Indx);
     fo << "Acronym " << sName.data();
     if (!sText.empty()) {
-- 
2.43.0


From e087761a859c1e69f11d6f5b3d84e6877571777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:00 +0000
Subject: [PATCH 41/96] fix: gdxdump starts a symbol's comments on a new line

---
 src/tools/gdxdump/gdxdump.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index bf25c46..60de96d 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -363,12 +363,16 @@ void WriteSymbol(const int SyNr) {
     LineCount++;
   };
 
-  auto WriteComments = [&]() {
+  auto WriteComments = [&](const bool lineStarted) {
     library::ShortString S;
     for (int N{1}; N <= std::numeric_limits<int>::max(); N++) {
       if (gdxSymbolGetComment(PGX, SyNr, N, S.data()) == 0) {
         break;
       }
+      // a comment has to start in the first column
+      if (N == 1 && lineStarted) {
+        fo << '\n';
+      }
       fo << "* " << S.data() << '\n';
     }
   };
@@ -483,10 +487,10 @@ void WriteSymbol(const int SyNr) {
   if (ACount == 0 && ShowData) {
     if (IsScalar) {
       fo << " / 0.0 /;\n";
-      WriteComments();
+      WriteComments(false);
     } else if (ShowHdr && ATyp != dt_alias) {
       fo << " / /;\n";
-      WriteComments();
+      WriteComments(false);
     }
   } else {
     if (ShowHdr && ShowData) {
@@ -495,7 +499,7 @@ void WriteSymbol(const int SyNr) {
         fo << '\n';
       }
     }
-    WriteComments();
+    WriteComments(ShowHdr && ATyp != dt_alias && (!ShowData || ADim == 0));
     if (!ShowData) {
       if (ATyp != dt_alias) {
         if (ACount == 0) {
-- 
2.43.0


From 3bd5ddc1334f717ea3982b09dfe3eaa30edc8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:14 +0000
Subject: [PATCH 42/96] fix: gdxdump recognises the stored equation types, so
 logic equations are declared as such

---
 src/tools/gdxdump/gdxdump.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 60de96d..a21eac3 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -425,6 +425,8 @@ void WriteSymbol(const int SyNr) {
     break;
 
   case dt_equ:
+    // the equation type is stored with an offset
+    AUser -= GMS_EQU_USERINFO_BASE;
     if (AUser < GMS_EQUTYPE_E || AUser > GMS_EQUTYPE_B) {
       AUser = GMS_EQUTYPE_E;
     }
-- 
2.43.0


From 63b839f4a2b5b50eb05cdf4f277b1cbe876eb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:51 +0000
Subject: [PATCH 43/96] fix: gdxdump prints no data after an alias of a set
 without indices

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index a21eac3..504f6d2 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -486,7 +486,7 @@ void WriteSymbol(const int SyNr) {
       }
     }
   }
-  if (ACount == 0 && ShowData) {
+  if ((ACount == 0 || ATyp == dt_alias) && ShowData) {
     if (IsScalar) {
       fo << " / 0.0 /;\n";
       WriteComments(false);
-- 
2.43.0


From db11227159ee83bbb4377f778f0792c96c857296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:34 +0000
Subject: [PATCH 44/96] fix: numbers printed with an exponent use the requested
 decimal separator

---
 src/gdlib/strutilx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9807e62..74bd67b 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -302,6 +302,7 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    else
    {
       assert(k >= 0);
+      s[j] = DecimalSep;
       if( s[k] == '+' )
          s[k] = ' ';
       for( int i = k + 1; i < slen; i++ )
-- 
2.43.0


From 18d34544a2480ce18be56473e5ae781f7de52ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:33 +0000
Subject: [PATCH 45/96] fix: gdxdump quotes element texts that contain quotes

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 504f6d2..452b611 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -127,7 +127,7 @@ void WriteQText(const std::string &S, const bool checkParenthesis) {
 // Check if UEL associated text needs to be quoted
 void WriteQUELText(const std::string &S) {
   WriteQuotedCommon(S, [](const char c) {
-    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*');
+    return utils::in(c, ' ', ',', ';', '/', '$', '=', '*', '\'', '\"');
   });
 }
 
-- 
2.43.0


From d9be6c1e6cd4ed01da2c45f7cec32d9d062378c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 46/96] fix: gdxdump's note on labels without a text stands on
 a line of its own

---
 src/tools/gdxdump/gdxdump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 452b611..7d13506 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -558,7 +558,11 @@ void WriteSymbol(const int SyNr) {
   //   fo << "$offText\n";
   // }
   if (BadUELs > 0) {
-    fo << "**** " << BadUELs << " reference(s) to unique elements without a string representation";
+    // without header the last record's line is still open
+    if (!ShowHdr && outFormat == OutFormat::fmt_normal) {
+      fo << '\n';
+    }
+    fo << "**** " << BadUELs << " reference(s) to unique elements without a string representation\n";
   }
 }
 
-- 
2.43.0


From 7c281e82cf6de8511ab2a12519426042c139be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:14 +0000
Subject: [PATCH 47/96] fix: gdxdump makes the CSV header of neighbouring equal
 domains unique

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 7d13506..2e3bc74 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -592,7 +592,7 @@ void WriteSymbolCSV(const int SyNr) {
       }
       while (true) {
         Done = true;
-        for (int DD{}; DD < D - 1; DD++) {
+        for (int DD{}; DD < D; DD++) {
           if (s == DomSPtrs[DD]) {
             Done = false;
             break;
-- 
2.43.0


From 330b96f87eb40eebac614b325d4b747aed0562cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:51 +0000
Subject: [PATCH 48/96] fix: gdxdump's CSV column layout handles label numbers
 without a label

---
 src/tools/gdxdump/gdxdump.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index 2e3bc74..fe9e034 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -31,6 +31,7 @@
 #include <limits>
 #include <map>
 #include <memory>
+#include <set>
 #include <string_view>
 
 #include "gdlib/dblutil.hpp"
@@ -609,9 +610,9 @@ void WriteSymbolCSV(const int SyNr) {
   };
 
   library::ShortString SyName, S;
-  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, HighIndex, Indx;
+  int iATyp, NRec, FDim, IDum, Col, ColCnt, NrSymb, NrUEL, Indx;
   gdxSyType ATyp;
-  std::unique_ptr<bool[]> CSVCols;
+  std::set<int> CSVCols;
   std::unique_ptr<int[]> CSVUels;
   gdxUelIndex_t Keys{};
   gdxValues_t Vals{};
@@ -700,31 +701,18 @@ void WriteSymbolCSV(const int SyNr) {
       fo << '\n';
     }
   } else {
-    CSVCols = std::make_unique<bool[]>(NrUEL);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVCols.get(), NrUEL, false);
-    HighIndex = 0;
-    ColCnt = 0;
     gdxDataReadRawStart(PGX, SyNr, &NRec);
     while (gdxDataReadRaw(PGX, Keys, Vals, &FDim) != 0) {
-      Indx = Keys[ADim - 1];
-      if (!CSVCols[Indx - 1]) {
-        CSVCols[Indx - 1] = true;
-        ColCnt++;
-        HighIndex = std::max(HighIndex, Indx);
-      }
+      CSVCols.insert(Keys[ADim - 1]);
     }
     gdxDataReadDone(PGX);
 
+    ColCnt = static_cast<int>(CSVCols.size());
     CSVUels = std::make_unique<int[]>(ColCnt);
-    // TODO: Check this, could be redundant
-    std::fill_n(CSVUels.get(), ColCnt, 0);
     Col = 0;
-    for (Indx = 0; Indx < HighIndex; Indx++) {
-      if (CSVCols[Indx]) {
-        CSVUels[Col] = Indx + 1;
-        Col++;
-      }
+    for (const int Uel : CSVCols) {
+      CSVUels[Col] = Uel;
+      Col++;
     }
     library::assertWithMessage(Col == ColCnt, "Col != ColCnt");
     if (bHeader) {
-- 
2.43.0


From c663b62805587712e9c3d4a1b13737cf450192f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:04 +0000
Subject: [PATCH 49/96] fix: gdxdump's set text listing looks at all symbols,
 including the last

---
 src/tools/gdxdump/gdxdump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxdump/gdxdump.cpp b/src/tools/gdxdump/gdxdump.cpp
index fe9e034..8c6ea4c 100644
--- a/src/tools/gdxdump/gdxdump.cpp
+++ b/src/tools/gdxdump/gdxdump.cpp
@@ -878,7 +878,7 @@ void WriteSetText() {
   // Now find the max textIdx stored for any set element
   mxTextIdx = 0;
   gdxSystemInfo(PGX, &nSyms, &idummy);
-  for (int iSym{}; iSym < nSyms; iSym++) {
+  for (int iSym{1}; iSym <= nSyms; iSym++) {
     gdxSymbolInfo(PGX, iSym, s.data(), &symDim, &symTyp);
     if (static_cast<gdxSyType>(symTyp) != dt_set) {
       continue;
-- 
2.43.0


From b2b85d2ee094560943d6f57a715c26e2b95f82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:18 +0000
Subject: [PATCH 50/96] fix: a short string keeps what fits instead of
 overrunning its buffer

---
 src/tools/library/short_string.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tools/library/short_string.cpp b/src/tools/library/short_string.cpp
index 57aade5..bf67a73 100644
--- a/src/tools/library/short_string.cpp
+++ b/src/tools/library/short_string.cpp
@@ -1,4 +1,5 @@
 // #include <cassert>
+#include <algorithm>
 #include <cstddef>
 #include <cstring>
 #include <ostream>
@@ -15,7 +16,8 @@ ShortString::ShortString() {
 }
 
 ShortString::ShortString(const char *s) {
-  const std::size_t s_length{std::strlen(s)};
+  // a short string keeps what fits, as in Delphi
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1)};
 
 #if defined(ENABLE_ASSERTIONS)
   assert(s_length < GMS_SSSIZE);
@@ -100,13 +102,17 @@ void ShortString::append(const char c) {
   assert(length + 1 < GMS_SSSIZE);
 #endif
 
+  if (length + 1 >= GMS_SSSIZE) {
+    return;
+  }
+
   buffer[length] = c;
   buffer[length + 1] = '\0';
 }
 
 void ShortString::append(const char *s) {
   const std::uint8_t length{this->length()};
-  const std::size_t s_length{std::strlen(s)};
+  const std::size_t s_length{std::min<std::size_t>(std::strlen(s), GMS_SSSIZE - 1 - length)};
 
 #if defined(ENABLE_ASSERTIONS)
   assert(length + s_length < GMS_SSSIZE);
@@ -147,7 +153,7 @@ void ShortString::to_upper_case() {
 }
 
 ShortString &ShortString::operator=(const std::string &s) {
-  const std::size_t s_length{s.length()};
+  const std::size_t s_length{std::min<std::size_t>(s.length(), GMS_SSSIZE - 1)};
 
 #if defined(ENABLE_ASSERTIONS)
   assert(s_length < GMS_SSSIZE);
-- 
2.43.0


From 1c611a18ad769fb65df8145d6f8451b88ad056b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:35 +0000
Subject: [PATCH 51/96] fix: gdxdiff takes the default record of an equation
 from its stored type

The user info of an equation holds its type plus an offset, so the table of default records was indexed far beyond its end and records equal to the default were reported as inserts.
---
 src/tools/gdxdiff/gdxdiff.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 47e994a..07733d5 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -573,9 +573,13 @@ void CompareSy(const int Sy1, const int Sy2) {
   // Create default record for this type
   if (ST == dt_var || ST == dt_equ) {
     if (ST == dt_var) {
-      std::copy(std::begin(gmsDefRecVar[VarEquType]), std::end(gmsDefRecVar[VarEquType]), std::begin(DefValues));
+      const int VarType{VarEquType >= GMS_VARTYPE_UNKNOWN && VarEquType < GMS_VARTYPE_MAX ? VarEquType : GMS_VARTYPE_UNKNOWN};
+      std::copy(std::begin(gmsDefRecVar[VarType]), std::end(gmsDefRecVar[VarType]), std::begin(DefValues));
     } else {
-      std::copy(std::begin(gmsDefRecEqu[VarEquType]), std::end(gmsDefRecEqu[VarEquType]), std::begin(DefValues));
+      // the equation type is stored with an offset
+      const int StoredType{VarEquType - GMS_EQU_USERINFO_BASE};
+      const int EquType{StoredType >= GMS_EQUTYPE_E && StoredType < GMS_EQUTYPE_MAX ? StoredType : GMS_EQUTYPE_E};
+      std::copy(std::begin(gmsDefRecEqu[EquType]), std::end(gmsDefRecEqu[EquType]), std::begin(DefValues));
     }
   }
 
-- 
2.43.0


From 64c44225c00ed2734f5124ac0731ba80f7ad06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 52/96] fix: gdxdiff reads ID and SkipID lists of any length

The list went through a string of at most 255 characters, so identifiers beyond that were silently ignored or cut.
---
 src/tools/gdxdiff/gdxdiff.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 07733d5..b5286bc 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -923,20 +923,15 @@ int main(const int argc, const char *argv[]) {
       idList = std::make_unique<gdlib::gmsobj::TXStrings>();
       for (int N{}; N < CmdParams->GetParamCount(); N++) {
         if (CmdParams->GetParams(N).Key == static_cast<int>(paramKey)) {
-          S = utils::trim(CmdParams->GetParams(N).KeyS);
-          // std::cout << S << '\n';
-          while (!S.empty()) {
-            int k{gdlib::strutilx::LChSetPos(
-                ", ",
-                S.data(),
-                static_cast<int>(S.length()))};
-            if (k == -1) {
-              ID = S;
-              S.clear();
+          std::string Rest{utils::trim(CmdParams->GetParams(N).KeyS)};
+          while (!Rest.empty()) {
+            const std::size_t k{Rest.find_first_of(", ")};
+            if (k == std::string::npos) {
+              ID = Rest;
+              Rest.clear();
             } else {
-              ID = S.string().substr(0, k);
-              S = S.string().erase(0, k + 1);
-              S = utils::trim(S);
+              ID = Rest.substr(0, k);
+              Rest = utils::trim(Rest.substr(k + 1));
             }
             ID = utils::trim(ID);
             if (!ID.empty()) {
-- 
2.43.0


From 968386ec3a681a5174620d2938d2cf664352f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:31 +0000
Subject: [PATCH 53/96] fix: gdxdiff DiffOnly does not exceed the maximum
 dimension

Variables and equations get two more dimensions with DiffOnly, so those with 19 dimensions cannot be written; the check looked at one dimension less instead of one more and the tool wrote beyond its key array.
---
 src/tools/gdxdiff/gdxdiff.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index b5286bc..7ea8af6 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -583,7 +583,8 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   }
 
-  if (Dim >= GMS_MAX_INDEX_DIM || (DiffOnly && Dim - 1 >= GMS_MAX_INDEX_DIM)) {
+  if (Dim >= GMS_MAX_INDEX_DIM ||
+      (DiffOnly && (ST == dt_var || ST == dt_equ) && Dim + 1 >= GMS_MAX_INDEX_DIM)) {
     Status = StatusCode::sc_dim10;
   }
 
-- 
2.43.0


From c45e71775da28512b8ac197d79560f0a7778f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:04 +0000
Subject: [PATCH 54/96] fix: gdxdiff MatrixFile names the keys by the labels of
 the file

With MatrixFile the records are read raw, so their keys are label numbers of the file; they were used as positions in the tool's own label table, which gave labels of other elements or, for sets, went beyond the table.
---
 src/tools/gdxdiff/gdxdiff.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/tools/gdxdiff/gdxdiff.cpp b/src/tools/gdxdiff/gdxdiff.cpp
index 7ea8af6..9c26aa6 100644
--- a/src/tools/gdxdiff/gdxdiff.cpp
+++ b/src/tools/gdxdiff/gdxdiff.cpp
@@ -206,6 +206,19 @@ void CompareSy(const int Sy1, const int Sy2) {
     }
   };
 
+  // Label for a key of a record that was read from the file the action refers to
+  auto GetKeyLabel = [](const std::string &Act, const int Key, char *Label) -> void {
+    if (!matrixFile) {
+      std::strcpy(Label, UELTable->GetString(Key));
+      return;
+    }
+    // Records were read raw: keys are the UEL numbers of the file itself
+    int UelMap;
+    if (gdxUMUelGet(Act == c_ins1 || Act == c_dif1 ? PGX1 : PGX2, Key, Label, &UelMap) == 0) {
+      std::snprintf(Label, GMS_SSSIZE, "L__%d", Key);
+    }
+  };
+
   auto WriteDiff = [&](const std::string &Act, const std::string &FldName, const gdxUelIndex_t &Keys, const gdxValues_t &Vals) -> void {
     gdxStrIndex_t StrKeys{};
     gdxStrIndexPtrs_t StrKeysPtrs;
@@ -215,12 +228,7 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      // TODO: Improve this check (especially the else case)
-      if (Keys[D] < UELTable->Count()) {
-        std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
-      } else {
-        std::snprintf(StrKeysPtrs[D], GMS_SSSIZE, "L__%d", Keys[D]);
-      }
+      GetKeyLabel(Act, Keys[D], StrKeysPtrs[D]);
     }
     if (!DiffOnly || (ST != dt_var && ST != dt_equ)) {
       std::strcpy(StrKeysPtrs[Dim], Act.data());
@@ -257,7 +265,7 @@ void CompareSy(const int Sy1, const int Sy2) {
 
     RegisterDiffUELs();
     for (int D{}; D < Dim; D++) {
-      std::strcpy(StrKeysPtrs[D], UELTable->GetString(Keys[D]));
+      GetKeyLabel(Act, Keys[D], StrKeysPtrs[D]);
     }
     std::strcpy(StrKeysPtrs[Dim], Act.data());
     gdxAddSetText(PGXDIF, S.data(), &iNode);
-- 
2.43.0


From 9bbcffcc301df37ee5cab92e69898dda5a79e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:31 +0000
Subject: [PATCH 55/96] fix: gdxmerge keeps the records of files with the same
 name

Files from different directories, with different extensions or spelled differently got the same label, so the records of all but one of them were dropped without a word. Such a file now gets a label of its own, as files do whose name is no valid label; a file matched by two patterns is read once.
---
 src/tools/gdxmerge/gdxmerge.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index aaee2e3..bc1c117 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -360,6 +360,24 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
   std::string WPath, BPath, ShortName, NewName, DTS;
   double DT;
 
+  auto HasFile = [&](const std::string &Name) -> bool {
+    for (int N{}; N < fileList->size(); N++) {
+      if (fileList->FileName(N) == Name) {
+        return true;
+      }
+    }
+    return false;
+  };
+
+  auto HasFileId = [&](const std::string &Id) -> bool {
+    for (int N{}; N < fileList->size(); N++) {
+      if (gdlib::strutilx::StrUEqual(fileList->FileId(N), Id)) {
+        return true;
+      }
+    }
+    return false;
+  };
+
   // Normal file or file pattern
   bool Result{true};
 
@@ -377,6 +395,11 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
         continue;
       }
 
+      if (HasFile(BPath + Rec.Name)) {
+        // Already listed by an earlier pattern
+        continue;
+      }
+
       ShortName = gdlib::strutilx::ChangeFileExtEx(Rec.Name, "");
       if (!library::goodUELString(ShortName.data(), ShortName.length()) || utils::trim(ShortName).empty()) {
         NewName = "File_" + std::to_string(fileList->size() + 1);
@@ -385,6 +408,16 @@ bool SymbolList::FindGDXFiles(const std::string &Path) {
                   << "    Replaced with: " << NewName << '\n';
         ShortName = NewName;
       }
+      if (HasFileId(ShortName)) {
+        int N{fileList->size() + 1};
+        do {
+          NewName = "File_" + std::to_string(N++);
+        } while (HasFileId(NewName));
+        std::cout << "*** Filename is already used as UEL for another file\n"
+                  << "    Existing name: " << ShortName << '\n'
+                  << "    Replaced with: " << NewName << '\n';
+        ShortName = NewName;
+      }
 
       DT = rtl::sysutils_p3::FileDateToDateTime(Rec.Time);
 
-- 
2.43.0


From f780223c798cacc0c28b4b5a0b1b61b1246942e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:28 +0000
Subject: [PATCH 56/96] fix: gdxmerge ID and Exclude lists are not case
 sensitive

Identifiers are not case sensitive anywhere else, but a list entry spelled differently from the file selected nothing.
---
 src/tools/gdxmerge/gdxmerge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index bc1c117..621d6bd 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -23,6 +23,7 @@
  * SOFTWARE.
  */
 
+#include <algorithm>
 #include <cstring>
 #include <iomanip>
 #include <iostream>
@@ -124,7 +125,10 @@ int SymbolList::AddUEL(const library::ShortString &S) {
 
 int SymbolList::AddSymbol(const std::string &AName, const int ADim, const gdxSyType AType, const int ASubTyp) {
   auto is_in_list = [](const std::vector<std::string> &list, const std::string &value) {
-    return std::find(list.begin(), list.end(), value) != list.end();
+    // identifiers are not case sensitive
+    return std::any_of(list.begin(), list.end(), [&value](const std::string &item) {
+      return gdlib::strutilx::StrUEqual(item, value);
+    });
   };
 
   if ((!IncludeList.empty() && !is_in_list(IncludeList, AName)) ||
-- 
2.43.0


From 16a62ff7d7b2b21c27c3fc2cedd9b2ecb5ca2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 57/96] fix: gdxmerge merges large symbols like the other ones

With the option big, the records of large symbols were collected with keys read beyond the key arrays (one bogus label per symbol, memory errors for scalars and 18 or more dimensions), without comparing type and dimension with those of the other files, without mapping acronyms, without the explanatory text, and not at all when one of the files could not be read.
---
 src/tools/gdxmerge/gdxmerge.cpp | 49 +++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 621d6bd..b588733 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -298,7 +298,7 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
 
 bool SymbolList::CollectBigOne(const int SyNr) {
   gdxHandle_t PGX;
-  int N, NrRecs, FDim, D, INode, ErrNr, FNr;
+  int N, NrRecs, FDim, D, INode, ErrNr, FNr, Dim, SyITyp, SySubTyp, DummyCount;
   GAMSSymbol *SyObj;
 
   gdxStrIndex_t IndxS{};
@@ -307,7 +307,30 @@ bool SymbolList::CollectBigOne(const int SyNr) {
 
   gdxUelIndex_t IndxI{};
   gdxValues_t Vals{};
-  library::ShortString Txt, ErrMsg, FileName, FileId;
+  library::ShortString Txt, ErrMsg, FileName, FileId, SyName, SyText;
+  bool FrstError;
+
+  auto CheckError = [&](const bool Cnd, const std::string &Msg) -> bool {
+    if (!Cnd) {
+      FErrorCount++;
+      if (FrstError) {
+        library::printErrorMessage("\n**** Error in file " + FileName);
+        FrstError = false;
+      }
+      library::printErrorMessage("     " + Msg + ": " + SyName);
+    }
+    return !Cnd;
+  };
+
+  auto CanBeMerged = [&](const gdxHandle_t &PGXIn, const int Nr) -> bool {
+    gdxSymbolInfo(PGXIn, Nr, SyName.data(), &Dim, &SyITyp);
+    gdxSymbolInfoX(PGXIn, Nr, &DummyCount, &SySubTyp, SyText.data());
+    const gdxSyType SyTyp{SyITyp == GMS_DT_ALIAS ? dt_set : gdxSyType(SyITyp)};
+    return !CheckError(Dim + 1 == SyObj->SyDim, "Dimensions do not match") &&
+           !CheckError(SyTyp == SyObj->SyTyp, "Types do not match") &&
+           ((SyTyp != dt_var && SyTyp != dt_equ) ||
+            !CheckError(SySubTyp == SyObj->SySubTyp, "Var/Equ subtypes do not match"));
+  };
 
   SyObj = gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetObject(SyNr);
   if (!SyObj->SyData) {
@@ -329,17 +352,27 @@ bool SymbolList::CollectBigOne(const int SyNr) {
     if (ErrNr != 0) {
       gdxErrorStr(PGX, ErrNr, ErrMsg.data());
       library::printErrorMessage("Error reading file, message: " + ErrMsg);
-      return false;
+      gdxFree(&PGX);
+      continue;
     }
 
-    if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0) {
-      // We did this already in AddPGXFile:
-      // ShareAcronyms(PGX);
+    ShareAcronyms(PGX);
+    FrstError = true;
+    if (gdxFindSymbol(PGX, gdlib::gmsobj::TXHashedStringList<GAMSSymbol>::GetString(SyNr), &N) > 0 &&
+        CanBeMerged(PGX, N)) {
+      if (SyObj->SyExplTxt.empty()) {
+        SyObj->SyExplTxt = SyText;
+      } else if (!SyText.empty()) {
+        CheckError(SyObj->SyExplTxt == SyText, "Explanatory text is different");
+      }
+
       IndxI[0] = AddUEL(FileId);
       gdxDataReadStrStart(PGX, N, &NrRecs);
       while (gdxDataReadStr(PGX, IndxSPtrs, Vals, &FDim) != 0) {
-        for (D = FDim - 1; D <= SyObj->SyDim; D++) {
-          IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+        if (Dim > 0) {
+          for (D = FDim - 1; D < Dim; D++) {
+            IndxI[D + 1] = AddUEL(library::ShortString{IndxSPtrs[D]});
+          }
         }
         if (SyObj->SyTyp == dt_set && Vals[GMS_VAL_LEVEL] != 0) {
           gdxGetElemText(PGX, utils::round<int>(Vals[GMS_VAL_LEVEL]), Txt.data(), &INode);
-- 
2.43.0


From b091edce653c2e53a29c9a60a93202a359df9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:07 +0000
Subject: [PATCH 58/96] fix: gdxmerge counts each input file once with the
 option big

---
 src/tools/gdxmerge/gdxmerge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index b588733..5daa263 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -183,7 +183,10 @@ void SymbolList::AddPGXFile(const int FNr, const ProcessPass Pass) {
     library::printErrorMessage("\nError reading file, message: " + ErrMsg);
     return;
   }
-  InputFilesRead++;
+  // Files are read twice when the first pass is a scan
+  if (Pass != ProcessPass::RpScan) {
+    InputFilesRead++;
+  }
 
   ShareAcronyms(PGX);
 
-- 
2.43.0


From 68e50d52107e0e508a6dec1b00b78df7a7afe9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:53 +0000
Subject: [PATCH 59/96] fix: TXStrHashList::RenameEntry renamed the entry after
 the given one in zero based lists

---
 src/gdlib/strhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/strhash.hpp b/src/gdlib/strhash.hpp
index b7d7fb9..11e6051 100644
--- a/src/gdlib/strhash.hpp
+++ b/src/gdlib/strhash.hpp
@@ -419,7 +419,7 @@ public:
       }
       if( PHashTable )
       {
-         int HV0 { Hash( GetString( N + 1 ) ) }, HV1 { Hash( s ) };
+         int HV0 { Hash( Buckets[N]->StrP ) }, HV1 { Hash( s ) };
          if( HV0 != HV1 )
          {
             PHashBucket<T> PrevBuck {}, PBuck;
@@ -433,7 +433,7 @@ public:
             ( *PHashTable )[HV1] = PBuck;
          }
       }
-      SetString( N + 1, s, std::strlen( s ) );
+      SetString( N + ( OneBased ? 1 : 0 ), s, std::strlen( s ) );
    }
 
    T *operator[]( const int N )
-- 
2.43.0


From 4a9e25928c4816e78396ed327b411919225677c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:53 +0000
Subject: [PATCH 60/96] fix: switching a bit off in TBooleanBitArray cleared
 its neighbours

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5f033c1..54f9921 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -394,7 +394,7 @@ public:
          GetBitMask( N, P, M );
          if( V ) PData[P] |= M;
          else
-            PData[P] &= !M;
+            PData[P] &= ~M;
       }
    }
 
-- 
2.43.0


From f31041301d3ba8c7b48d18ff820380726969dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 61/96] fix: reserving capacity in a string hash list in use
 overflowed its first memory block

---
 src/gdlib/batchalloc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/batchalloc.hpp b/src/gdlib/batchalloc.hpp
index a580ed7..adbbc4d 100644
--- a/src/gdlib/batchalloc.hpp
+++ b/src/gdlib/batchalloc.hpp
@@ -76,6 +76,7 @@ public:
    // Use different buffer size for first batch
    // In case we know lots of data will be requested first
    void SetFirstBatchSize(size_t s) {
+      if( head ) return; // size of the first batch is already settled
       if( const auto fbs = ( s + ( byteAlign - 1 ) ) & ~( byteAlign - 1 );
          fbs > batchSize && fbs < 0x10000000000)
          firstBatchSize = fbs;
-- 
2.43.0


From 15503e9ec1289265f2bc8c33557ff7de97824f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 62/96] fix: Delete and Remove of one based pointer lists hit
 the wrong item

---
 src/gdlib/gmsobj.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 54f9921..5cb7af3 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -129,13 +129,10 @@ public:
    void Delete( int Index )
    {
       FreeItem( Index );
+      if( OneBased ) Index--;
       FCount--;
-      if( Index < FCount )
-      {
-         if( OneBased ) Index--;
-         // overlap so use memmove instead of memcpy
+      if( Index < FCount )// overlap so use memmove instead of memcpy
          std::memmove( &FList[Index], &FList[Index + 1], ( FCount - Index ) * sizeof( T * ) );
-      }
    }
 
    T *Extract( T *Item )
@@ -180,7 +177,9 @@ public:
    {
       int res { FCount - 1 };
       while( res >= 0 && FList[res] != Item ) res--;
-      if( res >= ( OneBased ? 1 : 0 ) ) Delete( res );
+      if( res < 0 ) return res;
+      if( OneBased ) res++;
+      Delete( res );
       return res;
    }
 
-- 
2.43.0


From 109e76e27be9c26775eb0a074a8fd510b8d05587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 63/96] fix: operator[] of one based string lists returned the
 next string

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 5cb7af3..8162d4c 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -573,7 +573,7 @@ public:
 
    [[nodiscard]] char *GetName( int Index ) const
    {
-      return FList[Index].FString;
+      return FList[Index - ( OneBased ? 1 : 0 )].FString;
    }
 
    char *operator[]( const int Index ) const
-- 
2.43.0


From 8d6bcac006928104e60ad71d5933f1eb0200ae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 64/96] fix: TXSortedStringList::IndexOf called itself forever
 while the list is not sorted

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 8162d4c..1846351 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -845,7 +845,7 @@ public:
    int IndexOf( const char *S, const size_t slen )
    {
       int res;
-      return !FSorted ? this->IndexOf( S, slen ) : !Find( S, slen, res ) ? -1 : res;
+      return !FSorted ? TXCustomStringList<T>::IndexOf( S ) : !Find( S, slen, res ) ? -1 : res;
    }
 
    void BeginUpdate()
-- 
2.43.0


From 3b4d341e0526da2d31cf433b6af2684f3b323b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:37 +0000
Subject: [PATCH 65/96] fix: sorting a TXStrPool compared for equality instead
 of order

---
 src/gdlib/gmsobj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsobj.hpp b/src/gdlib/gmsobj.hpp
index 1846351..95f2e55 100644
--- a/src/gdlib/gmsobj.hpp
+++ b/src/gdlib/gmsobj.hpp
@@ -788,7 +788,7 @@ public:
    {
       const char  *s1 { this->FList[Index1 - ( this->OneBased ? 1 : 0 )].FString },
                   *s2 { this->FList[Index2 - ( this->OneBased ? 1 : 0 )].FString };
-      return utils::sameTextPChar<false>( s1, s2 );
+      return utils::strCompare( s1, s2, false );
    }
 };
 
-- 
2.43.0


From c28bbed0b833422a080bf4b6d3e86efe76c4ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:39 +0000
Subject: [PATCH 66/96] fix: adding a record to TLinkedData after it was sorted

---
 src/gdlib/datastorage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/datastorage.hpp b/src/gdlib/datastorage.hpp
index b3759e8..e053dfd 100644
--- a/src/gdlib/datastorage.hpp
+++ b/src/gdlib/datastorage.hpp
@@ -229,6 +229,7 @@ public:
          {
             if( Head[Key] )
             {
+               if( !R ) FTail = Tail[Key];// last record of this pass
                Tail[Key]->RecNext = R;
                R = Head[Key];
                Head[Key] = nullptr;// so we keep it all nullptr
@@ -236,7 +237,6 @@ public:
          }
          FHead = R;
       }
-      FTail = nullptr;// what is the tail???
 #if !defined( USE_GMSHEAP )
       delete[] Head;
       delete[] Tail;
-- 
2.43.0


From a6b11347b324909f8284bf7f94513cd3a32631b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:39 +0000
Subject: [PATCH 67/96] fix: TLinkedData took the index order for the requested
 mapped order

---
 src/gdlib/datastorage.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/datastorage.hpp b/src/gdlib/datastorage.hpp
index e053dfd..c6ca77f 100644
--- a/src/gdlib/datastorage.hpp
+++ b/src/gdlib/datastorage.hpp
@@ -85,7 +85,7 @@ class TLinkedData final
    batchalloc::BatchAllocator<960, 8> batchAllocator;
 #endif
 
-   bool IsSorted()
+   bool IsSorted( const int *AMap )
    {
       RecType *R { FHead };
       auto *PrevKey { R->RecKeys };
@@ -95,7 +95,8 @@ class TLinkedData final
       {
          for( int D {}; D < FDimension; D++ )
          {
-            KD = R->RecKeys[D] - PrevKey[D];
+            const int K { AMap ? AMap[D] : D };
+            KD = R->RecKeys[K] - PrevKey[K];
             if( KD ) break;
          }
          if( KD < 0 ) return false;
@@ -199,7 +200,7 @@ public:
 
    void Sort( const int *AMap = nullptr )
    {
-      if( !FHead || IsSorted() ) return;
+      if( !FHead || IsSorted( AMap ) ) return;
       const int AllocCount = FMaxKey - FMinKey + 1;
       const int KeyBase { FMinKey };
 #if !defined( USE_GMSHEAP )
-- 
2.43.0


From ce61b64624902881f935b9bf25159e4d65cb653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 68/96] fix: reading a password protected stream changed bytes
 past the end of the file

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index d60eff1..295e0a9 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -555,7 +555,7 @@ uint32_t TXFileStream::Read( void *Buffer, uint32_t Count )
       const auto PW = static_cast<char *>( Buffer );
       std::vector<char> PR( Count );
       SetLastIOResult( p3FileRead( FS, PR.data(), Count, res ) );
-      ApplyPassWord( PR.data(), PW, static_cast<int>( Count ), PhysPosition );
+      ApplyPassWord( PR.data(), PW, static_cast<int>( res ), PhysPosition );
    }
    PhysPosition += res;
    return res;
-- 
2.43.0


From d5ce31ca43b290bee457b1908500a984578cfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 69/96] fix: reading a line of a gzip file ignored the maximum
 line length

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 295e0a9..aa16e9c 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -186,7 +186,7 @@ uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !( in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp ) )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -199,7 +199,7 @@ void TGZipInputStream::ReadLine( std::string &buffer, int MaxInp, char &LastChar
 void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char &LastChar )
 {
    buffer.clear();
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp )
+   while( !( in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( buffer.size() ) == MaxInp ) )
    {
       buffer.push_back( LastChar );
       if( NrLoaded - NrRead >= 1 )
@@ -212,7 +212,7 @@ void TGZipInputStream::ReadLine( std::vector<uint8_t> &buffer, int MaxInp, char
 void TGZipInputStream::ReadLine( char *buffer, int MaxInp, char &LastChar, int &Len )
 {
    Len = 0;
-   while( !in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( Len ) == MaxInp )
+   while( !( in<char>( LastChar, '\r', '\n', substChar ) || static_cast<int>( Len ) == MaxInp ) )
    {
       buffer[Len++] = LastChar;
       if( NrLoaded - NrRead >= 1 )
-- 
2.43.0


From 439b0b3a1b56e1310c80e668e38817e457095b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:41 +0000
Subject: [PATCH 70/96] fix: writing the smallest integer in compact form
 overran a buffer

---
 src/gdlib/gmsstrm.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index aa16e9c..276e8b2 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -891,15 +891,16 @@ void TMiBufferedStream::WriteGmsInteger( int N )
 #endif
 
    uint8_t B { static_cast<uint8_t>( N >= 0 ? 0 : 128 ) };
-   if( N < 0 ) N = -N;
-   B |= N & 15;
-   N >>= 4;
+   // unsigned: the magnitude of the smallest integer is no integer
+   auto U { N < 0 ? 0u - static_cast<uint32_t>( N ) : static_cast<uint32_t>( N ) };
+   B |= U & 15;
+   U >>= 4;
    int C {};
    std::array<uint8_t, 5> W {};
-   while( N )
+   while( U )
    {
-      W[++C] = ui8(N & 255);
-      N >>= 8;
+      W[++C] = ui8(U & 255);
+      U >>= 8;
    }
    W[0] = ui8(B | C << 4);
    Write( W.data(), C + 1 );
@@ -1001,15 +1002,15 @@ int TMiBufferedStream::ReadGmsInteger()
    const bool Neg = B >= 128;
    global::delphitypes::Bounded<int, 0, 6> C { ( B >> 4 ) & 7 };
    if( C > 0 ) Read( &W[1], C );
-   int res {};
+   uint32_t res {};
    while( C >= 1 )
    {
       res = ( res << 8 ) | W[C];
       --C;
    }
    res = ( res << 4 ) | W[0];
-   if( Neg ) res *= -1;
-   return res;
+   if( Neg ) res = 0u - res;
+   return static_cast<int>( res );
 }
 
 double TMiBufferedStream::ReadGmsDouble()
-- 
2.43.0


From 7979728d291d6c4b7c6ae5a82dd8b7d1e2b414ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:08 +0000
Subject: [PATCH 71/96] fix: rewinding an uncompressed GAMS text container
 delivered its verification string

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 276e8b2..8ada84e 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1292,7 +1292,7 @@ void TBinaryTextFileIO::ReWind()
    assert( frw == fm_read && "TBinaryTextFileIO.ReWind1" );
    assert( FS && "TBinaryTextFileIO.ReWind2" );
    FS->SetPosition( FRewindPoint );
-   if( FS->GetCompression() ) FS->ReadString();// skip verification string
+   if( FMajorVersionRead > 0 ) FS->ReadString();// skip verification string
 }
 
 int TBinaryTextFileIO::GetLastIOResult()
-- 
2.43.0


From 3b4d7cad2be92e37f1415dfd55ca1281858c1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:47 +0000
Subject: [PATCH 72/96] fix: text files written with some passwords could not
 be opened again

---
 src/gdlib/gmsstrm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 8ada84e..c781086 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1128,7 +1128,7 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       const std::string src = FS->ReadString();
       sstring targBuf {};
       FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
-      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string(targBuf.data()) ) return;
+      if( TBufferedFileStream::RandString( static_cast<int>( src.length() ) ) != std::string( targBuf.data(), src.length() ) ) return;
    }
 
    FRewindPoint = FS->GetPosition();
@@ -1157,11 +1157,11 @@ TBinaryTextFileIO::TBinaryTextFileIO( const std::string &fn, const std::string &
       {
          FS->FlushBuffer();
          FS->SetPassWord( PassWord );
-         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( (int) PassWord.length() );
+         std::string src = gdlib::gmsstrm::TBufferedFileStream::RandString( static_cast<int>( std::min<size_t>( PassWord.length(), 255 ) ) );
          sstring targBuf {};
          FS->ApplyPassWord( src.c_str(), targBuf.data(), (int) src.length(), verify_offset );
          FS->SetPassWord( "" );
-         FS->WriteString( targBuf.data() );
+         FS->WriteString( std::string_view { targBuf.data(), src.length() } );
       }
       if( comp ) FS->SetCompression( true );
       else
-- 
2.43.0


From 35929456539c923a8cd0979da44c9b789a3c2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:05 +0000
Subject: [PATCH 73/96] fix: reading a damaged gzip file ran past the buffer

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index c781086..550b7a7 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -161,7 +161,7 @@ TGZipInputStream::~TGZipInputStream()
 uint32_t TGZipInputStream::Read( void *buffer, uint32_t Count )
 {
    const auto FillBuffer = [&]() -> bool {
-      NrLoaded = gzread( pgz, Buf.data(), static_cast<int>( this->Buf.size() ) );
+      NrLoaded = static_cast<uint32_t>( std::max( 0, gzread( pgz, Buf.data(), static_cast<int>( this->Buf.size() ) ) ) );// -1: damaged file
       NrRead = 0;
       return NrLoaded > 0;
    };
-- 
2.43.0


From 9de77f81685f3f106566f47912d8edd2ee6eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:22 +0000
Subject: [PATCH 74/96] fix: asking a gzip text file for its last error crashed

---
 src/gdlib/gmsstrm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 550b7a7..90ddee6 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -1297,6 +1297,6 @@ void TBinaryTextFileIO::ReWind()
 
 int TBinaryTextFileIO::GetLastIOResult()
 {
-   return FS->GetLastIOResult();
+   return FS ? FS->GetLastIOResult() : 0;// gzip input has no stream
 }
 }// namespace gdlib::gmsstrm
-- 
2.43.0


From a50ff65d50d19f7fffec90a8843a4af2bc594302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 75/96] fix: number text written to a buffer kept trailing
 garbage

---
 src/gdlib/strutilx.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 74bd67b..3477ffa 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -362,16 +362,11 @@ uint8_t DblToStrSep(double V, const char DecimalSep, char* sout)
    uint8_t slen = DblToStrSepCore( V, DecimalSep, sout );
    // only with short strings
    int i {};
-   for( int l {}; l < slen; i++, l++ )
-   {
-      if( sout[l] == ' ' )
-      {
-         while( sout[++l] == ' ' && sout[l] != '\0' )
-            ;
-      }
-      sout[i] = sout[l];
-   }
-   return ui8(i - 1);
+   for( int l {}; l < slen; l++ )
+      if( sout[l] != ' ' )
+         sout[i++] = sout[l];
+   sout[i] = '\0';
+   return ui8(i);
 }
 
 std::string DblToStr( const double V )
-- 
2.43.0


From d04a0ab0f482e2524d043e9ceee3203c81401e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 76/96] fix: spreadsheet column names came out reversed

---
 src/gdlib/strutilx.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 3477ffa..9116290 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -139,7 +139,7 @@ int StrExcelCol( const std::string &s )
    for( int i {}; i < static_cast<int>( s.length() ); i++ )
    {
       const int j { ord(toupper( s[i] )) - ord( 'A' ) };
-      if( j < 0 || j > 25 || res >= std::numeric_limits<int>::max() / 26 + 26 )
+      if( j < 0 || j > 25 || res > ( std::numeric_limits<int>::max() - j - 1 ) / 26 )
          return 0;
       res = res * 26 + j + 1;
    }
@@ -150,8 +150,8 @@ std::string ExcelColStr( int C )
 {
    if( C <= 0 ) return {};
    std::string res;
-   for( res.clear(); C; C /= 26 )
-      res += static_cast<char>( ord( 'A' ) + --C % 26 );
+   for( ; C; C /= 26 )
+      res.insert( res.begin(), static_cast<char>( ord( 'A' ) + --C % 26 ) );
    return res;
 }
 
-- 
2.43.0


From a795c125317576a5659ea6536489b8e764e3c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 77/96] fix: width of the smallest integer overflowed

---
 src/gdlib/strutilx.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 9116290..310da3e 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -158,7 +158,6 @@ std::string ExcelColStr( int C )
 int IntegerWidth( int n )
 {
    int res = n >= 0 ? 0 : 1;
-   if( res ) n = -n;
    do {
       res++;
       n /= 10;
-- 
2.43.0


From 0ca78e20c871f1f9288ec2a431198ed3d7f2fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 78/96] fix: negative numbers and widths were wrong in IntToHex

---
 src/rtl/sysutils_p3.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 392c73d..01c0856 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -894,11 +894,12 @@ std::string IntToHex( int64_t v, int w )
       w = 0;
    int i { MAXW-1 };
    std::array<char, MAXW> buf {};
+   auto u { static_cast<uint64_t>( v ) };
    do
    {
-      buf[i--] = hex[0xF & v];
-      v >>= 4;
-   } while(v || w + i > MAXW);
+      buf[i--] = hex[0xF & u];
+      u >>= 4;
+   } while(u || w + i >= MAXW);
    return {buf.begin()+i+1, buf.end()};
 }
 
-- 
2.43.0


From 19f90fcf4473e5c88c2ff201e66458e8dc6d03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 79/96] fix: FloatToStr always returned an empty string

---
 src/rtl/sysutils_p3.cpp | 100 ++--------------------------------------
 1 file changed, 3 insertions(+), 97 deletions(-)

diff --git a/src/rtl/sysutils_p3.cpp b/src/rtl/sysutils_p3.cpp
index 01c0856..d5f8d26 100644
--- a/src/rtl/sysutils_p3.cpp
+++ b/src/rtl/sysutils_p3.cpp
@@ -32,6 +32,7 @@
 
 #include "unit.h"// for UNIT_INIT_FINI
 
+#include "../gdlib/strutilx.hpp"// for DblToStr
 #include "utils.hpp"// for ui16
 
 #if defined( _WIN32 )
@@ -911,104 +912,9 @@ int StrToInt( const std::string &S )
    return static_cast<int>(Res);
 }
 
-// this is VERY ugly, edit the str() ShortString
-// FIXME: TODO: AS: Not yet really tested! Compare with p3 and parallel step through with Lazarus
-std::string FloatToStr( double v )
+std::string FloatToStr( const double v )
 {
-   std::array<char, 64> sbuf {};
-
-   if( v == 0.0 )
-      return "0"s;
-
-   size_t eLen;
-   p3io::P3_Str_dd0( v, sbuf.data(), 64, &eLen );
-   std::string s { sbuf.data() };
-   if( v < 0.0 )
-      v = -v;
-   const int k = LastDelimiter( "+-"s, s );
-   int j = utils::pos( '.', s );
-   if( v >= 1e-4 && v < 1e15 )
-   {
-      int i, e;
-      utils::val( s.substr( k, 5 ), e, i );
-      for( i = k - 1; i <= static_cast<int>( s.length() ); i++ )
-         s[i] = '0';
-      if( e >= 0 )
-      {
-         for( i = j + 1; i <= j + e; i++ )
-         {
-            s[i - 1] = s[i];
-         }
-         s[j + e] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
-         {
-            s[i] = ' ';
-            if( i == j + e + 1 )
-               s[j + e] = ' ';
-            else
-               break;
-         }
-      }
-      else
-      {
-         s[j] = s[j - 1];
-         s[j - 1] = '0';
-         e = -e;
-         s.resize( k + e - 2 );
-         for( i = k - 2; i >= j; i-- )
-            s[i + e] = s[i];
-         for( i = j + 1; i <= j + e - 1; i++ )
-            s[i] = '0';
-         s[j] = '.';
-         for( i = static_cast<int>( s.length() ); i >= j + e + 1; i-- )
-         {
-            if( s[i] == '0' )
-               s[i] = ' ';
-            else
-               break;
-         }
-      }
-   }
-   else
-   {
-      if( s[k] == '+' )
-         s[k] = ' ';
-      for( int i = k + 1; i <= static_cast<int>( s.length() ) - 1; i++ )
-      {
-         if( s[i] == '0' )
-         {
-            s[i] = ' ';
-            if( i == static_cast<int>( s.length() ) )
-               s[k - 1] = ' ';
-         }
-         else
-            break;
-      }
-      for( int i { k - 2 }; i >= j + 1; i-- )
-      {
-         if( s[i] == '0' )
-         {
-            s[i] = ' ';
-            if( i == j + 1 )
-               s[j] = ' ';
-         }
-         else
-            break;
-      }
-   }
-
-   // only for short strings
-   j = 0;
-   std::array<char, 256> res {};
-   for( int i {}; i < static_cast<int>( s.length() ); i++ )
-   {
-      if( s[i] != ' ' )
-      {
-         j++;
-         res[j] = s[i];
-      }
-   }
-   return { res.data() };
+   return gdlib::strutilx::DblToStr( v );
 }
 
 double EncodeTime( const uint16_t hour, const uint16_t min, const uint16_t sec, const uint16_t msec )
-- 
2.43.0


From a2da19d63defea921526735ab5d94247414549f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 80/96] fix: parsing long texts as numbers ran over a fixed
 buffer

---
 src/rtl/p3io.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 11f1170..2f75286 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -30,6 +30,7 @@
 #include <cmath>
 #include <array>
 #include <stdexcept>
+#include <string>
 
 #include "p3io.hpp"
 #include "dtoaLoc.h"
@@ -177,9 +178,7 @@ void P3_Val_dd(const char *s, double *d, int *code)
 
 void P3_Val_dd(const char *s, size_t slen, double *d, int *code)
 {
-   std::array<char, 256> buffer;
-   std::memcpy(buffer.data(), s, sizeof(char)*(slen+1));
-   buffer[slen] = '\0';
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
@@ -257,8 +256,7 @@ void P3_Val_i(const char *s, int *i, int *code)
  */
 void P3_Val_i( const char *s, size_t slen, int *i, int *code )
 {
-   std::array<char, 256> buffer;
-   std::memcpy( buffer.data(), s, sizeof( char ) * ( slen + 1 ) );
+   std::string buffer( s, slen );
 
    // skip over blanks
    // - Kylix 3 does not treat any other chars as whitespace
-- 
2.43.0


From 8dc40258860b474e08a5c72ba899ce14ede4b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 81/96] fix: integer texts that do not fit were accepted with a
 wrong value

---
 src/rtl/p3io.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 2f75286..0eaa373 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -29,6 +29,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <array>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -244,6 +245,15 @@ void P3_Val_dd(const char *s, size_t slen, double *d, int *code)
    }
 }
 
+// Stores a parsed integer. When it does not fit, the text is reported as faulty at its last digit.
+static void storeInt( const long long li, const long long maxVal, const char *end, const char *buffer, int *i, int *code )
+{
+   const bool fits { li >= std::numeric_limits<int>::min() && li <= maxVal };
+   *i = fits ? static_cast<int>( li ) : 0;
+   // reached the end, things went OK
+   *code = fits && '\0' == *end ? 0 : static_cast<int>( end - buffer + ( fits ? 1 : 0 ) );
+}
+
 void P3_Val_i(const char *s, int *i, int *code)
 {
    const auto len {std::strlen(s)};
@@ -277,10 +287,8 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    if( (*sd > '0' && *sd <= '9') || ('0' == *sd && ( '\0' == sd[1] || (sd[1] >= '0' && sd[1] <= '9') )) )
    {
       char *end;
-      const auto li = strtol( s2, &end, 10 );
-      *i = static_cast<int>(li);
-      // reached the end, things went OK
-      *code = '\0' == *end ? 0 : static_cast<int>( end - buffer.data() + 1 );
+      const auto li = std::strtoll( s2, &end, 10 );
+      storeInt( li, std::numeric_limits<int>::max(), end, buffer.data(), i, code );
       return;
    }
 
@@ -296,10 +304,8 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
          else
             sd++;
          char *end;
-         const auto li = strtol( sd, &end, 16 );
-         *i = static_cast<int>(li);
-         // reached the end, things went OK
-         *code = '\0' == *end ? 0 : static_cast<int>( end - buffer.data() + 1 );
+         const auto li = std::strtoll( sd, &end, 16 );
+         storeInt( li, std::numeric_limits<uint32_t>::max(), end, buffer.data(), i, code );
       }
       else
       {
@@ -312,18 +318,12 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    if( '0' == *sd && ( 'x' == sd[1] || 'X' == sd[1] ) )
    {
       char *end;
-      const auto li = strtol( s2, &end, 16 );
-      *i = static_cast<int>(li);
-      // reached the end, things went OK
-      if( '\0' == *end )
-         *code = 0;
-      else
-      {
-         // we already read the 0x, that is not an error for val
-         if( end < sd + 2 )
-            end = sd + 2;
-         *code = static_cast<int>( end - buffer.data() + 1 );
-      }
+      const auto li = std::strtoll( s2, &end, 16 );
+      // we already read the 0x, that is not an error for val
+      const bool noDigits { end < sd + 2 };
+      storeInt( li, std::numeric_limits<uint32_t>::max(), noDigits ? sd + 2 : end, buffer.data(), i, code );
+      if( noDigits )
+         *code = static_cast<int>( sd + 2 - buffer.data() + 1 );
       return;
    }
    *i = 0;
-- 
2.43.0


From 484392b650ec983cbd85e9587032fc1078127c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:57 +0000
Subject: [PATCH 82/96] fix: hexadecimal texts starting with a lower case digit
 were refused

---
 src/rtl/p3io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index 0eaa373..d2ac8cc 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -296,7 +296,7 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
    // must be either $ffff or 0xffff or an error
    if( '$' == *sd )
    {
-      if( ( sd[1] >= '0' && sd[1] <= '9' ) || ( sd[1] >= 'A' && sd[1] <= 'F' ) )
+      if( ( sd[1] >= '0' && sd[1] <= '9' ) || ( sd[1] >= 'A' && sd[1] <= 'F' ) || ( sd[1] >= 'a' && sd[1] <= 'f' ) )
       {
          // isxdigit
          if( -1 == sign )
-- 
2.43.0


From 637e4d34e041a047dadc75da4393008d8e50ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:10 +0000
Subject: [PATCH 83/96] fix: integer texts with two hexadecimal prefixes were
 accepted

---
 src/rtl/p3io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtl/p3io.cpp b/src/rtl/p3io.cpp
index d2ac8cc..28813b1 100644
--- a/src/rtl/p3io.cpp
+++ b/src/rtl/p3io.cpp
@@ -299,6 +299,13 @@ void P3_Val_i( const char *s, size_t slen, int *i, int *code )
       if( ( sd[1] >= '0' && sd[1] <= '9' ) || ( sd[1] >= 'A' && sd[1] <= 'F' ) || ( sd[1] >= 'a' && sd[1] <= 'f' ) )
       {
          // isxdigit
+         if( '0' == sd[1] && 'x' == tolower( sd[2] ) )
+         {
+            // strtoll would skip a second prefix
+            *i = 0;
+            *code = static_cast<int>( sd + 2 - buffer.data() + 1 );
+            return;
+         }
          if( -1 == sign )
             *sd = '-';
          else
-- 
2.43.0


From e55d66d49dcb8542c04ba019b7f172989d6e87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:42 +0000
Subject: [PATCH 84/96] fix: trimming a view of an all-blank text threw an
 exception

---
 src/gdlib/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index c42989e..e83d752 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -121,6 +121,7 @@ std::string_view trim( const std::string_view s )
 {
    if( s.empty() ) return {};
    const auto firstNonBlank = s.find_first_not_of( " \t\n\r" );
+   if( firstNonBlank == std::string_view::npos ) return {};
    const auto lastNonBlank = s.find_last_not_of( " \t\n\r" );
    return s.substr( firstNonBlank, lastNonBlank - firstNonBlank + 1 );
 }
-- 
2.43.0


From 1700ff8546c0e8e6f927069de42affd473479ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:42 +0000
Subject: [PATCH 85/96] fix: splitting a text into tokens was off by one
 character

---
 src/gdlib/strutilx.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index 310da3e..cc4f89f 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -783,19 +783,19 @@ std::string ExtractToken( const std::string &s, int &p )
    if( p <= 0 ) return ""s;
    const auto L = static_cast<int>( s.length() );
    // skip leading blanks
-   while( p <= L && s[p] == ' ' ) p++;
+   while( p <= L && s[p - 1] == ' ' ) p++;
    if( p > L ) return ""s;
    char Stop;
-   if( !in( s[p], '\'', '\"' ) ) Stop = ' ';
+   if( !in( s[p - 1], '\'', '\"' ) ) Stop = ' ';
    else
    {
-      Stop = s[p];
+      Stop = s[p - 1];
       p++;
    }
    const int rs = p;
-   while( p <= L && s[p] != Stop ) p++;
+   while( p <= L && s[p - 1] != Stop ) p++;
    std::string res { s.substr( rs - 1, p - rs ) };
-   if( p <= L && s[p] == Stop ) p++;
+   if( p <= L && s[p - 1] == Stop ) p++;
    return res;
 }
 
-- 
2.43.0


From e1b7eb4e055b84d6c4ae7a7b0a3e5491da66c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:42 +0000
Subject: [PATCH 86/96] fix: a directory already first in an environment path
 was added again

---
 src/rtl/p3utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index 0da6f46..c7253a0 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -1186,13 +1186,13 @@ bool PrefixEnv( const std::string &dir, const std::string &evName )
 #else
    const auto tptrBuf = getenv( evName.c_str() );
    if( !tptrBuf || tptrBuf[0] == '\0' ) // fail or empty
-      return setEnvironmentVariableUnix( evName, dir );
+      return setEnvironmentVariableUnix( evName, trimDir );
    std::string tptr {tptrBuf};
    if( tptr.length() >= trimDir.length()
-      && dir == tptr
+      && tptr.compare( 0, trimDir.length(), trimDir ) == 0
       && ( tptr.length() == trimDir.length() || tptr[trimDir.length()] == PathSep ) )
       return true;
-   return setEnvironmentVariableUnix( evName, dir + PathSep + tptr );
+   return setEnvironmentVariableUnix( evName, trimDir + PathSep + tptr );
 #endif
 }
 
-- 
2.43.0


From f4b9acae135e15cc74afd0c5982d0653d1aed89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:42 +0000
Subject: [PATCH 87/96] fix: prefixing a long search path cut it at 255
 characters

---
 src/rtl/p3utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtl/p3utils.cpp b/src/rtl/p3utils.cpp
index c7253a0..88efd61 100644
--- a/src/rtl/p3utils.cpp
+++ b/src/rtl/p3utils.cpp
@@ -113,7 +113,7 @@ bool PrefixPath( const std::string &s )
 {
    if( s.empty() ) return true;
 
-   const auto prevPath = QueryEnvironmentVariable( "PATH" );
+   const auto prevPath = P3GetEnv( "PATH" );
    const std::string newPath = s + PathSep + prevPath;
    return !AssignEnvironmentVariable( "PATH", newPath );
 }
-- 
2.43.0


From 7f1716cc5494cb2570e6f01a76af134ef46dd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:21 +0000
Subject: [PATCH 88/96] fix: symbol tables with references to nowhere are
 rejected when a file is opened

---
 src/gxfile.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0d5458d..6e84f3c 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2120,6 +2120,23 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       if( ErrorCondition( FFile->ReadString() == MARK_DOMS, ERR_OPEN_DOMSMARKER3 ) ) return FileErrorNr();
    }
 
+   // entries of one table that refer to another one: reject references to nowhere
+   for( int N { 1 }; N <= NameList->Count(); N++ )
+   {
+      const auto *sym = *NameList->GetObject( N );
+      for( int D {}; D < sym->SDim; D++ )
+         if( ErrorCondition( !sym->SDomSymbols || ( sym->SDomSymbols[D] >= 0 && sym->SDomSymbols[D] <= NameList->Count() ), ERR_OPEN_SYMBOLMARKER2 ) ||
+             ErrorCondition( !sym->SDomStrings || ( sym->SDomStrings[D] >= 0 && sym->SDomStrings[D] <= DomainStrList->Count() ), ERR_OPEN_DOMSMARKER3 ) )
+            return FileErrorNr();
+      // an alias leads to a set or the universe, also when it is the alias of an alias
+      for( int Hops {}; sym && sym->SDataType == dt_alias; Hops++ )
+      {
+         const int SyNr { sym->SUserInfo };
+         if( ErrorCondition( SyNr >= 0 && SyNr <= NameList->Count() && Hops < NameList->Count(), ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
+         sym = SyNr ? *NameList->GetObject( SyNr ) : nullptr;
+      }
+   }
+
    LastError = ERR_NOERROR;
    gdxResetSpecialValues();
    fmode = fr_init;
-- 
2.43.0


From d95f685783db31076d1f1bcde8cdec3a6cf5d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 89/96] fix: a bad first changed position in the data of a
 symbol was used as an index

---
 src/gxfile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 6e84f3c..3c758a8 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1430,11 +1430,11 @@ bool TGXFileObj::DoRead( double *AVals, int &AFDim )
    }
    else
    {
+      // the first changed position is one of the positions of the symbol (a scalar has none)
+      if( ErrorCondition( !FCurrentDim || ( B >= 1 && B <= FCurrentDim ), ERR_BADDATAFORMAT ) ) return false;
       AFDim = B;
-      assert( AFDim >= 1 && AFDim <= GLOBAL_MAX_INDEX_DIM );
-      for( int D { AFDim - 1 }; D < FCurrentDim; D++ )
+      for( int D { std::max( AFDim - 1, 0 ) }; D < FCurrentDim; D++ )
       {
-         assert( D >= 0 && D < GLOBAL_MAX_INDEX_DIM );
          switch( ElemType[D] )
          {
             case TgdxElemSize::sz_integer:
-- 
2.43.0


From 21e7c0b3d79b2047d993402800a50d75ac8ed116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 90/96] fix: slices of a symbol with negative label numbers
 wrote outside of the map

---
 src/gxfile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 3c758a8..a73a7ab 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3378,7 +3378,14 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    }
    while( DoRead( Values.data(), FDim ) )
       for( int D {}; D < FCurrentDim; D++ )
+      {
+         if( ErrorCondition( LastElem[D] >= 0, ERR_BADELEMENTINDEX ) )
+         {
+            gdxDataReadDone();
+            return false;
+         }
          SliceIndxs[D].SetMapping( LastElem[D], 1 );
+      }
 
    gdxDataReadDone();
 
-- 
2.43.0


From d6a1806b8d243069969ea3da8978d9b97cb5c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:28 +0000
Subject: [PATCH 91/96] fix: renaming a label while writing by strings left the
 old name valid for the next record

---
 src/gxfile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index a73a7ab..cef5899 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2747,6 +2747,9 @@ int TGXFileObj::gdxRenameUEL( const char *OldName, const char *NewName )
    if( UELTable->IndexOf( S ) >= 0 )
       return 3;
    UELTable->RenameEntry( N, S );
+   // the labels of the previous record have to be looked up again
+   for( auto &elem: LastStrElem )
+      elem.front() = std::numeric_limits<char>::max();
    return 0;
 }
 
-- 
2.43.0


From 1e68c1099b8e0130dfaeb3bc32509ba5a70302db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:23 +0000
Subject: [PATCH 92/96] fix: writing raw refused a first key within 256 of the
 largest integer as unsorted

---
 src/gxfile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index cef5899..b7be3f8 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1257,7 +1257,8 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
       debugStream << '\n';
    }
 
-   int FDim { FCurrentDim + 1 }, delta {};
+   int FDim { FCurrentDim + 1 };
+   int64_t delta {};
    for( int D {}; D < FCurrentDim; D++ )
    {
       if( WrBitMaps[D] && !accessBitMap( *WrBitMaps[D], AElements[D] ) )
@@ -1279,7 +1280,7 @@ bool TGXFileObj::DoWrite( const int *AElements, const double *AVals )
    }
    for( int D {}; D < FCurrentDim; D++ )
    {
-      delta = AElements[D] - LastElem[D];
+      delta = static_cast<int64_t>( AElements[D] ) - LastElem[D];
       if( delta )
       {
          FDim = D + 1;// plus one to match Delphi semantics
-- 
2.43.0


From d34aa6743a14ea57951fb686aa7fcad505d7ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 93/96] fix: conversion at close handed file names with shell
 characters to gdxcopy mangled

---
 src/gxfile.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index b7be3f8..f9c59ee 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -297,6 +297,23 @@ static int SystemP( const std::string &cmd, int &ProgRC )
    return res;
 }
 
+// File name as one argument of a command for the shell
+static std::string quoteFileName( const std::string &fn )
+{
+#if defined( _WIN32 )
+   return quoteWhitespace( fn, '\"' );
+#else
+   std::string res { "'"s };
+   for( const char c: fn )
+   {
+      if( c == '\'' ) res += R"('\'')"s;
+      else
+         res += c;
+   }
+   return res + '\'';
+#endif
+}
+
 int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
 {
    std::string Conv { trim( uppercase( QueryEnvironmentVariable( strGDXCONVERT ) ) ) };
@@ -304,7 +321,7 @@ int ConvertGDXFile( const std::string &fn, const std::string &MyComp )
    const std::string Comp = Conv == "V5" ? ""s : ( !GetEnvCompressFlag() ? "U" : "C" );
    if( sameText( Conv + Comp, "V7"s + MyComp ) ) return 0;
    int progRC;
-   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + quoteWhitespace( fn, '\"' ), progRC ) };
+   const int res { SystemP( "gdxcopy -"s + Conv + Comp + " -Replace "s + quoteFileName( fn ), progRC ) };
    return progRC ? ERR_GDXCOPY - progRC : res;
 }
 
-- 
2.43.0


From 87cb10adaa5ae4d77a613b8593b849be96b8bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:35 +0000
Subject: [PATCH 94/96] fix: printing a NaN or an infinity wrote outside of the
 buffer

---
 src/gdlib/strutilx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gdlib/strutilx.cpp b/src/gdlib/strutilx.cpp
index cc4f89f..cd33e89 100644
--- a/src/gdlib/strutilx.cpp
+++ b/src/gdlib/strutilx.cpp
@@ -250,6 +250,8 @@ static uint8_t DblToStrSepCore(double V, const char DecimalSep, char *s)
    // output string has E notation (https://en.wikipedia.org/wiki/Scientific_notation#E_notation)
    // example: 2.30000000000000E+0001 for 23
    const auto slen = static_cast<int>( std::strlen( s ) );
+   if( !std::isfinite( V ) )// neither a decimal point nor an exponent
+      return ui8(slen);
    if( V < 0.0 )
       V = -V;
    const auto k { RChSetPos( "+-", s, slen ) },
-- 
2.43.0


From af57b2226112c8f362ffa354251912778825b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:10 +0000
Subject: [PATCH 95/96] fix: gdxmerge looped forever on an acronym without a
 name

FindAcronym returns zero, not a negative number, for a name that is not
there, so the search for a free name never ended.
---
 src/tools/gdxmerge/gdxmerge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gdxmerge/gdxmerge.cpp b/src/tools/gdxmerge/gdxmerge.cpp
index 5daa263..4d2e6af 100644
--- a/src/tools/gdxmerge/gdxmerge.cpp
+++ b/src/tools/gdxmerge/gdxmerge.cpp
@@ -562,7 +562,7 @@ void SymbolList::KeepNewAcronyms(const gdxHandle_t &PGX) {
         // Should not happen
         for (int K{1}; K <= std::numeric_limits<int>::max(); K++) {
           AName = "Acronym_Auto_" + std::to_string(K);
-          if (FindAcronym(AName) < 0) {
+          if (FindAcronym(AName) <= 0) {
             break;
           }
         }
-- 
2.43.0


From 3b7672b14f406a7c4bbc9d4c6a73f3aff813d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:26 +0000
Subject: [PATCH 96/96] fix: a file with an alias of another dimension than its
 set is rejected when it is opened

The alias was reported with its own dimension but read with the one of the
set, so callers got records with fewer index positions than announced.
---
 src/gxfile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index f9c59ee..4718a62 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2151,7 +2151,10 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
       {
          const int SyNr { sym->SUserInfo };
          if( ErrorCondition( SyNr >= 0 && SyNr <= NameList->Count() && Hops < NameList->Count(), ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
-         sym = SyNr ? *NameList->GetObject( SyNr ) : nullptr;
+         const auto *target = SyNr ? *NameList->GetObject( SyNr ) : nullptr;
+         // it has the dimension of what it is an alias of
+         if( ErrorCondition( target ? in( target->SDataType, dt_set, dt_alias ) && target->SDim == sym->SDim : sym->SDim == 1, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();
+         sym = target;
       }
    }
 
-- 
2.43.0

