GX = "src/gxfile.cpp"
NOTE = "Generated-input search against an explicit oracle; no violation on the reported cases. Not exhaustive; trusts the reference model in harness/, the compiler and ASan."

prop("C01", "Written data reads back unchanged",
 "Any collection of symbols (sets, parameters, variables, equations; 0 to 20 index positions; any labels, any number of records, any values) that was written and closed without an error is found again when the file is opened: the same symbols in the same order, the same labels, and for each symbol exactly the written records, each once, in ascending label order. All value fields come back bit-identical (a negative zero as zero, IEEE infinities and NaNs as the corresponding GAMS special values).",
 ["inputs", "histories"], "all documents: label sets up to beyond 65,536 labels, dimensions 0-20, all types, record counts including none, sparse and dense keys, all doubles, plain and compressed",
 "Round trips in the tests cover fixed small tables; the record encoding switches representation on key span (255/65535), step size in the last index, first changed index and value class, whose combinations a fixed sample does not reach.",
 [GX, "src/gdlib/gmsstrm.cpp", "src/gdlib/datastorage.hpp", "src/gdlib/strhash.hpp"],
 [("delta-encoded record writer/reader", GX+": DoWrite/DoRead, InitDoWrite, PrepareSymbolRead"), ("typed value codes", GX+": DoWrite, DoRead, GetDefaultRecord"), ("index and tables written at close", GX+": gdxClose, gdxOpenReadXX")],
 [("ElemType/MinElem/MaxElem", "per-index key width and range", GX)], ["gdxDataReadStr", "gdxDataReadRaw", "gdxSymbolInfo", "gdxUMUelGet"],
 "property-based round-trip testing against a reference document model", NOTE)

prop("C02", "Every way of writing stores the same data, in any record order",
 "Writing the same records by strings, by user-mapped numbers or by label numbers produces files with equal contents, and for string and mapped writing the order in which records are supplied does not matter. When a key is supplied more than once in one symbol, exactly the first record is stored and every later one is reported in the error list with its keys and values (the list keeps the first eleven entries, the error record count goes on). Label-number writing that goes backwards or repeats a key is refused and reported, and what was accepted before and after is stored intact.",
 ["inputs", "histories"], "all record multisets and permutations, all three write interfaces, with and without declared key bounds",
 "Tests write a few records in one or two orders; sorting and duplicate detection depend on key ranges, counts and which index differs.",
 [GX, "src/gdlib/datastorage.hpp"],
 [("linked-list bucket sort", "src/gdlib/datastorage.hpp: TLinkedData::Sort"), ("duplicate detection on done", GX+": gdxDataWriteDone, AddToErrorListDomErrs"), ("order check in raw write", GX+": DoWrite")],
 [], ["gdxDataWriteDone", "gdxDataErrorCount", "gdxDataErrorRecord"],
 "property-based differential testing of the write interfaces + permutation metamorphic test + duplicate model", NOTE)

prop("C03", "Every way of reading returns the same records",
 "For every readable file and symbol (including aliases and the universe), reading by strings, by label numbers, with a default mapped read, and with the callback interfaces delivers the same sequence of records with the same values, and the announced record count is the number of records delivered. The reported first changed index position is, for every record, the leftmost position whose label differs from the previous record. Abandoning a read part-way and starting another never changes what the next read delivers.",
 ["inputs", "histories"], "all documents, all read interfaces, all interleavings of partial reads",
 "Tests read each interface on its own small sample; agreement has to hold for all key layouts and after any earlier partial read.",
 [GX],
 [("common record decoder", GX+": DoRead"), ("string/raw/mapped/callback front ends", GX+": gdxDataReadStr, gdxDataReadRaw, gdxDataReadMap, gdxDataReadRawFast, gdxDataReadRawFastEx")],
 [], ["gdxDataReadStr", "gdxDataReadRaw", "gdxDataReadMap", "gdxDataReadRawFast", "gdxDataReadRawFastEx"],
 "property-based differential testing of all read interfaces", NOTE)

prop("C04", "Slices and selected reads deliver exactly the matching records",
 "Reading a slice (any index position fixed to a label, the others free) or a label-filtered read delivers exactly the records whose fixed positions match, in order, with correct values and correct labels for the free positions; a label that does not occur selects nothing. The element counts announced for a slice, and the domain elements reported for an index position, are exactly the distinct labels used at that position.",
 ["inputs", "histories"], "all documents, all subsets of fixed positions, all labels including unknown ones, repeated slices on one start",
 "Tests slice one small parameter; the projection logic depends on dimension, on which positions are fixed, and on gaps in label use.",
 [GX],
 [("slice index maps", GX+": gdxDataReadSliceStart, gdxDataReadSlice, gdxDataSliceUELS"), ("filter callback", GX+": gdxDataReadRawFastFilt"), ("domain element collection", GX+": gdxGetDomainElements")],
 [], ["gdxDataReadSlice", "gdxDataSliceUELS", "gdxDataReadRawFastFilt", "gdxGetDomainElements"],
 "property-based testing against a relational selection model", NOTE)

prop("C05", "Mapped and filtered reading keeps exactly the mapped records",
 "A filtered read delivers precisely the records whose labels pass the action chosen for each position (any label, mapped labels only, mapped labels with automatic extension, or membership in a registered filter), translated to the user's numbers, in ascending order of those numbers. Every other record is left out of the data and covered by the error list: each label that may not occur at a position is listed once there, with a record that was left out because of it (the list keeps the first eleven entries). Filters may be redefined or added at any time without affecting other filters.",
 ["inputs", "histories"], "all label-to-number maps (monotone or not, partial, sparse), all filters, all per-position actions, all documents",
 "Tests use one mapping and one filter; order and completeness depend on whether the map preserves order and on per-position combinations.",
 [GX, "src/gdlib/gmsobj.hpp"],
 [("mapping classification", GX+": PrepareSymbolRead, TUELTable::GetMapToUserStatus"), ("filter bits", GX+": TDFilter, gdxFilterRegister"), ("error list", GX+": AddToErrorList")],
 [], ["gdxDataReadFilteredStart", "gdxDataReadMap", "gdxDataErrorRecord", "gdxFilterExists"],
 "property-based model-based testing of filtered reads", NOTE)

prop("C06", "Numbers and special values survive exactly, under any remapping",
 "Every double written comes back bit-identical unless it equals one of the user's special values, in which case it comes back as the corresponding special value of the reader (EPS, NA, +INF, -INF, UNDEF), whatever special values the writer and the reader chose and however often they change them. Classification of a value as special is exact: a neighbouring double is never taken for a special value.",
 ["inputs", "histories", "configurations"], "all doubles (denormals, infinities, NaNs, neighbours of encoded constants), all special-value tables for writer and reader, all orders of setting and resetting them",
 "Tests check the default table and one remapping with a few numbers.",
 [GX],
 [("value classification", GX+": DoWrite, gdxMapValue"), ("special value tables", GX+": gdxSetSpecialValues, gdxSetReadSpecialValues, gdxResetSpecialValues")],
 [("intlValueMapI / readIntlValueMapDbl", "writer and reader special-value tables", GX)], ["gdxDataReadRaw", "gdxMapValue", "gdxGetSpecialValues"],
 "property-based round-trip testing over doubles and special-value tables", NOTE)

prop("C07", "Acronyms keep identity, name and numbering",
 "Every acronym value written to a file is read back as an acronym with the same name and explanatory text, under the index the reader assigned to that name, else under the next automatic number when the reader asked for automatic numbering, else under its index in the file. Distinct acronyms never become equal as long as the numbers the reader chose do not collide, and no ordinary number ever turns into an acronym or the reverse.",
 ["inputs", "histories"], "all sets of acronym names and indices on the writer and on the reader, with and without automatic numbering, all record positions",
 "Tests define two or three acronyms with one mapping.",
 [GX],
 [("acronym table and remapping", GX+": TAcronymList, acronymRemap, gdxAcronymSetInfo, gdxAcronymNextNr")],
 [], ["gdxAcronymGetInfo", "gdxAcronymIndex", "gdxAcronymName", "gdxAcronymGetMapping"],
 "property-based model-based testing of acronym tables", NOTE)

prop("C08", "The label table is exact, stable and case-insensitive",
 "A label is stored once per file regardless of upper/lower case and trailing blanks, keeps the spelling and the number of its first registration, and is found under any case at any table size. Labels that are too long, contain control characters or mix both quote characters are refused without changing the table. User numbers given at registration are returned for exactly those labels, a number or a label cannot be given twice, and renaming a label keeps its number and makes it findable under the new name only.",
 ["inputs", "histories"], "all registration histories in the three modes, all byte strings as labels, table sizes across hash growth, renames",
 "Tests register a handful of labels; hash growth, collisions in case, and renames interact over histories.",
 [GX, "src/gdlib/strhash.hpp", "src/gdlib/gmsobj.hpp"],
 [("label hash table", GX+": TUELTable, UelTableImplChoice; src/gdlib/strhash.hpp"), ("label validation", "src/gdlib/gmsobj.cpp or "+GX+": GoodUELString"), ("user maps", GX+": TUELTable::NewUsrUel, AddUsrNew, AddUsrIndxNew")],
 [], ["gdxUELRegisterStr", "gdxUELRegisterRaw", "gdxUELRegisterMap", "gdxUMFindUEL", "gdxUMUelGet", "gdxRenameUEL"],
 "stateful property-based testing against a label-table model", NOTE)

prop("C09", "Symbol declarations, texts, comments and aliases are kept",
 "Names, types, dimensions, user information, explanatory texts, comments, set-element texts and aliases are returned as they were given, for every symbol, both while writing and after reopening; node numbers of set texts are kept within the session that assigned them. Texts are changed only in these ways: control characters are replaced, mixed quotes unified, a comment is cut to 255 characters and an overlong explanatory text is marked as overflow. Declarations with an invalid or already used name, dimension or type, or aliases to nothing or under a used name, are refused without any effect.",
 ["inputs", "histories"], "all sequences of declarations, comments, set texts and aliases, valid and invalid",
 "Tests declare a few symbols with plain texts.",
 [GX],
 [("symbol table", GX+": InitDoWrite, gdxAddAlias, IsGoodNewSymbol"), ("text clean-up", "src/gdlib/gmsobj.cpp / "+GX+": MakeGoodExplText"), ("set text pool", GX+": gdxAddSetText, gdxGetElemText, gdxSetTextNodeNr")],
 [], ["gdxSymbolInfo", "gdxSymbolInfoX", "gdxSymbolGetComment", "gdxGetElemText", "gdxSetHasText"],
 "stateful property-based testing against a symbol-table model", NOTE)

prop("C10", "Domain declarations are kept and classified correctly",
 "The domain names given for a symbol are returned after reopening, and the symbol is reported as having no, a relaxed or a regular domain exactly according to how it was declared, with regular domains resolved to the right symbols. A position of a regular domain is only accepted when it names the universe or an existing one-dimensional set or alias of one; otherwise the call reports failure and that position becomes the universe. A declaration refused as a whole leaves no trace, and the symbol stays usable.",
 ["inputs", "histories"], "all sequences of symbols, aliases, and domain lists (regular, relaxed, mixed with the universe, unknown, wrong dimension or type)",
 "Tests declare one regular and one relaxed domain.",
 [GX],
 [("regular domains", GX+": gdxSymbolSetDomain, gdxSymbolGetDomain"), ("relaxed domains and domain string table", GX+": gdxSymbolSetDomainX, gdxSymbolGetDomainX")],
 [], ["gdxSymbolGetDomain", "gdxSymbolGetDomainX"],
 "property-based model-based testing of domain declarations", NOTE)

prop("C11", "Domain checking on write never stores or loses a record wrongly",
 "While a symbol with a regular domain is written by strings or mapped numbers, a record is stored if and only if each of its labels is an element of the domain of its position (a one-dimensional set written earlier, an alias of one, or the universe) and its key is new. Every other record is left out and reported (label-number writes at once, the others in the error list with its keys, each offending label listed once, up to eleven entries), and domain sets are never changed by the check. This covers sets written in the same session.",
 ["inputs", "histories"], "all domain sets, all records in and out of the domain, several symbols sharing domains, order of supply",
 "Tests check a single violation.",
 [GX, "src/gdlib/gmsdata.hpp"],
 [("domain element bit arrays", GX+": gdxSymbolSetDomain, gdxDataWriteStr, gdxDataWriteMap"), ("stored domain sets", GX+": gdxDataWriteDone / StoreDomainSets")],
 [], ["gdxDataWriteStr", "gdxDataWriteMap", "gdxDataErrorCount", "gdxDataErrorRecord"],
 "property-based model-based testing of domain-checked writes", NOTE)

prop("C12", "Appending keeps old content and adds the new",
 "Opening an existing file for append, writing more symbols, labels, texts, acronyms, aliases and comments, and closing leaves a file whose content is the old content (data, numbering, declarations) followed by the new, as if written in one session. Any number of append sessions may follow each other, including empty ones, with or without compression.",
 ["histories", "inputs", "configurations"], "all histories of write and append sessions of any content",
 "One append test with one extra symbol.",
 [GX],
 [("append positioning", GX+": gdxOpenAppend, gdxOpenReadXX, NextWritePosition")],
 [], ["gdxOpenAppend", "gdxOpenRead"],
 "stateful property-based testing of session histories against a document model", NOTE)

prop("C13", "Compression never changes content",
 "A file written with compression holds the same symbols, labels, texts and records as the same content written without it, for any amount and any compressibility of data, and reports its compression state truthfully. Choosing compression through the environment setting has the same effect as requesting it explicitly. With automatic conversion on, close calls the external converter for exactly the files whose form (version, compression) differs from the one the environment asks for, under their own name, and reports when it fails.",
 ["inputs", "configurations"], "all documents, record streams of any length relative to the compression block size, incompressible and constant data",
 "One small compressed file in the tests; block boundaries (multi-byte fields across blocks, blocks that do not shrink, exact fits) need sizes around multiples of the block size.",
 ["src/gdlib/gmsstrm.cpp", GX],
 [("block compressor", "src/gdlib/gmsstrm.cpp: TMiBufferedStreamDelphi, TBufferedFileStreamDelphi FillBuffer/FlushBuffer"), ("activation per symbol", GX+": InitDoWrite, PrepareSymbolRead"), ("conversion at close", GX+": ConvertGDXFile, gdxClose")],
 [], ["gdxOpenWriteEx", "gdxFileInfo", "gdxDataReadRaw", "gdxAutoConvert"],
 "property-based differential testing plain vs compressed with sizes steered to block boundaries", NOTE)

prop("C14", "Calls out of order are refused without damage; close completes the file",
 "In every state of a session, a call that is not allowed there is refused, is counted as an error retrievable once, and changes no content; writing that was under way goes on unharmed. Asking for information and tracing, at any level and at any point, never change what later calls return or write. Whatever legal calls were made, closing a file opened for writing finishes pending work and leaves a complete file with everything accepted so far, and the object can then be used for another file.",
 ["histories"], "all sequences of interface calls, legal and illegal, in all session states",
 "Tests call a few functions out of order; the space of call histories is unbounded.",
 [GX],
 [("mode checks", GX+": MajorCheckMode, CheckMode, ErrorCondition"), ("finishing at close", GX+": gdxClose")],
 [("fmode", "session state", GX)], ["gdxErrorCount", "gdxGetLastError", "gdxClose"],
 "stateful (history) property-based testing against a session state machine", NOTE)

prop("C15", "An unfinished or foreign file is never accepted as complete",
 "A file whose writing session ended before close, at whatever write the process died, is rejected on opening; a file whose append session ended that way is either rejected or still holds exactly its old content. Rejected as well is any file that is missing, empty, cut short at any length, of a later format version, or not in the exchange format. The failure is reported by return value and error code with a message, the file is left as it was, and the object can open a good file afterwards. Opening a good file for reading never modifies it.",
 ["crash_points", "inputs", "histories"], "all crash points of all writing and append sessions, all prefixes of complete files, arbitrary foreign bytes",
 "Tests open one missing file; crash points and prefixes are not enumerated.",
 [GX],
 [("index written last at close", GX+": gdxClose, gdxOpenWriteEx"), ("header checks", GX+": gdxOpenReadXX")],
 [], ["gdxOpenRead", "gdxOpenAppend"],
 "property-based fault injection: generated sessions with process death at generated physical writes, enumerated truncation, generated foreign files", NOTE, "fault_enumeration")

prop("C16", "A failed disk write is never silently lost",
 "If the operating system refuses a write at any point of a writing or append session (disk full, I/O error, size limit), then at the latest the close reports an error, or the file is complete and reads back exactly as if nothing had failed. Writes that are interrupted or only partly done, but can be completed, lose nothing and are not reported.",
 ["fault_sequences"], "all positions of the first refused write, all documents, plain and compressed",
 "No fault is injected in the tests.",
 ["src/gdlib/gmsstrm.cpp", GX],
 [("sticky stream error", "src/gdlib/gmsstrm.cpp: TXFileStreamDelphi::Write, SetLastIOResult"), ("close result", GX+": gdxClose")],
 [], ["gdxClose", "gdxOpenRead"],
 "property-based fault injection: generated sessions with refused, partial and interrupted physical writes at enumerated positions", NOTE, "fault_enumeration")

prop("C17", "Files follow the exchange format, in both directions",
 "Every file the library writes conforms to the published layout of the format: an independent reader of that layout recovers the same content. Conversely every file that conforms to it (either byte order, any allowed key width and value coding, compressed or not, format versions 5 to 7) is read with exactly the content it encodes.",
 ["inputs", "configurations"], "all documents; all encodings an independent writer can choose; both byte orders; versions 5, 6, 7",
 "Tests only read what the library itself wrote, so writer and reader may drift together.",
 [GX, "src/gdlib/gmsstrm.cpp"],
 [("layout writer/reader", GX+": gdxOpenWriteEx, gdxClose, gdxOpenReadXX, PrepareSymbolRead, DoWrite, DoRead"), ("byte order swap", "src/gdlib/gmsstrm.cpp: TMiBufferedStreamDelphi::ReverseBytes")],
 [], ["file bytes", "gdxOpenRead", "gdxDataReadRaw"],
 "differential testing against an independent encoder and decoder of the format", NOTE)

prop("C18", "The C interface and the shared library behave like the C++ class",
 "Every call made through the shared library's C functions, or through the loadable C wrapper, has the same result, outputs and file effects as the same call on the C++ class, for all call sequences.",
 ["histories", "inputs"], "all call histories over the exported functions",
 "The wrappers are generated and only a few are called by tests.",
 ["generated/gdxcclib.cpp", "generated/gdxcc.c", "generated/gdxcwrap.h", "generated/gdxcppwrap.hpp"],
 [("C export layer", "generated/gdxcclib.cpp"), ("loader", "generated/gdxcc.c")],
 [], ["all exported gdx functions"],
 "differential property-based testing of call histories: C library vs C++ class", NOTE)

prop("C19", "Objects are independent of each other and across threads",
 "Operations on one object never affect another object, whatever the interleaving of calls and whether the objects are used from one thread or, each by its own thread, from many at the same time.",
 ["schedules", "histories"], "all interleavings of sessions on several objects, in one thread and in many",
 "Tests use one object at a time in one thread.",
 [GX, "src/gdlib/gmsstrm.cpp", "src/rtl"],
 [("per-object state", GX+": TGXFileObj members; function-level statics")],
 [], ["all interface functions"],
 "property-based interleaving of generated sessions compared with solo runs; threads under ThreadSanitizer", NOTE)

prop("C20", "The dump tool prints the file's content faithfully",
 "The text the dump tool prints for a file contains exactly the file's symbols and records: re-reading the printed declarations (kind, name, domain, text), labels and texts (with quoting), comments, acronyms, values (rounded to 15 significant digits, exactly in the hexadecimal forms, with the chosen delimiter, decimal separator and special value words) and CSV rows or columns gives back the content. Symbol selection, filtering of default values, overview, domain, label and set text listings show exactly the selected part, and calls the tool cannot carry out end with a nonzero exit code.",
 ["inputs", "configurations"], "all documents, all output options",
 "No test runs the tool on generated content.",
 ["src/tools/gdxdump/gdxdump.cpp"],
 [("writers", "src/tools/gdxdump/gdxdump.cpp: WriteSymbol, WriteSymbolAsItem, WriteUELTable, QQ handling")],
 [], ["gdxdump stdout"],
 "property-based testing: parse the tool's output back and compare with the document model", NOTE)

prop("C21", "The compare tool reports exactly the differences",
 "For two files whose labels are all named (by label numbers in matrix mode) the compare tool says files are identical exactly when, under the chosen options (absolute and relative tolerances, compared fields, default records, domains, set texts, ignored order, listed and skipped symbols), their contents agree by labels without regard to case and numbering; otherwise the summary names each differing symbol with the kind of difference and the output file holds, for each common symbol, exactly the inserted, deleted and changed records with the values or texts of each side, its labels in the order of the compared files unless that order is ignored. The exit status agrees with the report, and calls it cannot carry out are refused and leave no file behind.",
 ["inputs", "configurations"], "all pairs of documents, all option combinations, tolerances at the boundary",
 "No test compares generated file pairs.",
 ["src/tools/gdxdiff/gdxdiff.cpp"],
 [("record merge-compare", "src/tools/gdxdiff/gdxdiff.cpp: CompareSy, DoublesEqual, ShowInsert")],
 [], ["gdxdiff exit code", "difference file"],
 "property-based differential testing against a reference comparison", NOTE)

prop("C22", "The merge tool keeps every record of every input",
 "The merged file contains, for each symbol name of the inputs, every record of each input prefixed with a label for the file it came from (its name, when that is usable and not taken), with unchanged values, acronyms and texts and nothing else, whether or not large symbols are merged one at a time; symbols that cannot be merged (type, dimension or subtype differing from the first file, too many positions) are reported and left out, and so are files that cannot be read. Inclusion and exclusion lists select exactly the named symbols without regard to case. A set of the merged file names the inputs.",
 ["inputs", "configurations"], "all collections of input documents, all options",
 "No test merges generated files.",
 ["src/tools/gdxmerge/gdxmerge.cpp"],
 [("merge tables", "src/tools/gdxmerge/gdxmerge.cpp: SymbolList::AddPGXFile, CollectBigOne, WritePGXFile")],
 [], ["merged file"],
 "property-based testing against a union-of-documents model", NOTE)

prop("C23", "Containers behave like their mathematical models",
 "The containers of the library (pointer, integer and string lists, sorted and hashed string lists, string pool, hash list with and without regard to case, bit set, growing array, record table, linked record list) behave, over any history of insertions, lookups, renames, removals, exchanges, sorting, clearing and iteration, like the corresponding list, dictionary, set or sorted record table, including when they grow past internal capacity steps, and never touch memory outside of their own.",
 ["histories", "inputs"], "all operation histories on each container",
 "Tests exercise each container with a few elements.",
 ["src/gdlib/gmsobj.hpp", "src/gdlib/strhash.hpp", "src/gdlib/datastorage.hpp", "src/gdlib/gmsdata.hpp"],
 [("containers", "src/gdlib")],
 [], ["container interfaces"],
 "stateful model-based property testing of containers", NOTE)

prop("C24", "Byte streams return exactly what was written",
 "Any history of typed writes, positioning and reads on the file streams (plain, buffered, byte-order aware, with compressed sections or a password, text and gzip text) returns the bytes and values a plain byte array would, independent of buffer boundaries, of reopening and of the byte order of the writer; compact number encodings give back the number; end of file and errors are reported exactly when they occur.",
 ["histories", "inputs"], "all sequences of typed reads, writes and seeks, all sizes around the buffer size",
 "Tests write and read a few values.",
 ["src/gdlib/gmsstrm.cpp"],
 [("streams", "src/gdlib/gmsstrm.cpp")],
 [], ["stream interfaces"],
 "stateful model-based property testing of streams against a byte array", NOTE)

prop("C25", "Numbers turned into text and text turned into numbers keep their value",
 "The text the library prints for a finite double is the value correctly rounded to 15 significant digits (and to the width or precision asked for where one can be asked for), so that values of up to 15 digits come back exactly; the hexadecimal forms name the exact bits. Numeric text is parsed to the nearest double, exactly as the C runtime parses it; integers, hexadecimal numbers, thousands-separated numbers and spreadsheet column names convert both ways without loss over the whole integer range; text that is not a number, or an integer that does not fit, is reported as such with no value accepted.",
 ["inputs"], "all finite doubles, all integers, the precisions the conversions offer, arbitrary text",
 "Tests convert a few dozen numbers.",
 ["src/gdlib/strutilx.cpp", "src/gdlib/dblutil.cpp", "src/rtl/sysutils_p3.cpp", "src/rtl/p3utils.cpp", "src/gdlib/utils.cpp"],
 [("printing", "src/gdlib/strutilx.cpp: DblToStr, DblToStrSep, DblToStrExSep, gdRoundTo; src/rtl/p3utils.cpp: p3FloatToEfmt"), ("parsing", "src/gdlib/utils.cpp: val; src/rtl/p3utils.cpp: P3_Val_*; src/gdlib/strutilx.cpp: StrAs*"), ("integers", "src/gdlib/strutilx.cpp: IntToNiceStr, IntegerWidth, ExcelColStr, StrExcelCol; src/rtl/sysutils_p3.cpp: IntToStr, IntToHex"), ("hex", "src/gdlib/dblutil.cpp: dblToStrHex*")],
 [], ["conversion functions"],
 "property-based round-trip testing of conversions against the C runtime", NOTE)

prop("C26", "Counts and maximum lengths reported about a file are exact",
 "The numbers of symbols, labels, acronyms, records, set texts and the highest user number, the longest label overall, the longest symbol name and the longest label used in each index position of a symbol equal what the content implies, at any time while reading or writing.",
 ["inputs", "histories"], "all documents and registration histories",
 "Tests compare with a few constants.",
 [GX],
 [("length scans", GX+": gdxSymbIndxMaxLength, gdxUELMaxLength, gdxSymbMaxLength"), ("counts", GX+": gdxSystemInfo, gdxUMUelInfo, gdxSymbolInfoX")],
 [], ["gdxSystemInfo", "gdxUMUelInfo", "gdxSymbIndxMaxLength", "gdxUELMaxLength", "gdxSymbMaxLength"],
 "property-based testing against values computed from the document model", NOTE)

prop("C27", "Reading a damaged file never crashes, hangs or corrupts the process",
 "Whatever bytes of a file were changed, lost or repeated, opening it for reading either fails with an error code or gives an object on which every reading call (all tables, raw, string, mapped, filtered, sliced and callback reading, domain elements, lengths) returns: no access outside the library's own memory, no exception, no endless loop. Reported dimensions, types and domain references stay within the declared limits and tables. The outcome depends only on the bytes: two objects read the same. Afterwards the object closes and reads a good file correctly. The tools gdxdump, gdxdiff and gdxmerge, given such a file, end by themselves without accessing memory wrongly and leave the file as it was. Memory use of slices over absurdly large label numbers is not covered.",
 ["inputs", "fault_sequences"], "all positions and values of wrong bytes in header, tables and data of files of every layout version and byte order, all reading calls and orders of them",
 "Tests read only well-formed files.",
 ["src/gxfile.cpp", "src/gdlib/gmsstrm.cpp", "src/tools"],
 [("checks of the tables", "src/gxfile.cpp: gdxOpenReadXX"), ("record decoding", "src/gxfile.cpp: DoRead, PrepareSymbolRead"), ("block decoding", "src/gdlib/gmsstrm.cpp: TBufferedFileStream::FillBuffer"), ("tools", "src/tools/gdxdump, gdxdiff, gdxmerge")],
 [], ["gdxOpenRead", "gdxDataRead*"],
 "structure-aware mutation fuzzing of generated files under AddressSanitizer, with a differential oracle between two objects", NOTE)

prop("C28", "Text, path, date, directory and environment helpers do what they promise",
 "The string, path, calendar, directory and environment helpers the library and its tools are built on agree with a plain reference for every input: searching, replacing, trimming, padding, splitting, case-insensitive comparison (ASCII letters only) and short-string conversion; the parts of a file name (directory, name, extension) and their replacement; cleaning or completing a path never changes the place it denotes; dates and times encode and decode without loss and impossible dates are refused; a directory search finds exactly the entries matching pattern and attributes; environment variables read back what was set whatever their length, and prefixing a path list keeps the rest; lines of any length are read whole.",
 ["inputs", "histories"], "texts of any length and content, paths with any mix of parent and current steps, dates of years 1 to 9999, directories with any file names, histories of environment changes",
 "Tests sample one or two literals per helper.",
 ["src/gdlib/strutilx.cpp", "src/gdlib/utils.cpp", "src/rtl/sysutils_p3.cpp", "src/rtl/p3utils.cpp"],
 [("text", "src/gdlib/strutilx.cpp; src/gdlib/utils.cpp"), ("files and dates", "src/rtl/sysutils_p3.cpp"), ("environment", "src/rtl/p3utils.cpp: P3SetEnv, P3GetEnv, PrefixEnv, PrefixPath")],
 [], ["helper functions"],
 "property-based testing of pure helpers and of histories against reference implementations", NOTE)
