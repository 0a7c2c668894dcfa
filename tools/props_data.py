# ---------------------------------------------------------------- EDK2 build-file language
P("P01", "Exactly one branch of every conditional block takes effect",
  "In DSC and FDF files, of each !if/!ifdef/!ifndef ... !elseif ... !else ... !endif block only the first branch whose "
  "condition is true (or the !else branch when none is) takes effect, and nothing in it takes effect when an enclosing "
  "branch is inactive. Modules, definitions and other content on inactive lines leave no trace in the parse result. After "
  "a block's !endif, activity is exactly what it was before the block. Directives are recognised in any letter case and spacing; an !elseif, !else or "
  "!endif that belongs to no block, and malformed ones, are refused.",
  ["programs", "histories"], "every nesting and sequence of conditional blocks with well-formed conditions",
  "Unit tests parse a handful of blocks; nesting, !elseif chains and !ifdef heads multiply into thousands of shapes.",
  [U + "parsers/base_parser.py", U + "parsers/dsc_parser.py", U + "parsers/fdf_parser.py"],
  [("conditional stack", "BaseParser.ProcessConditional / PushConditional / InActiveCode")],
  "All block trees to depth 2 (3 for reduced heads) and all pairs of blocks, incl. macros defined in branches, on the "
  "line API, DSC and FDF parsers, compared with a recursive reference interpreter; all sequences of <=5 (6) of 8 directives, with a malformed one at the end.",
  [("ConditionalStack", "(value, already taken) per open block")], ["parse results of DscParser / FdfParser"])
P("P02", "!if conditions evaluate to the value their operators define",
  "A well-formed !if/!elseif condition evaluates by these rules: relational, equality and 'in' operators bind tighter than "
  "AND/OR (which associate left to right at equal precedence), NOT and '!' negate the rest of their parenthesised group, "
  "parentheses override, and decimal and hexadecimal numbers, TRUE/FALSE, quoted strings and macros are compared by "
  "value. The result does not depend on spacing, on operator spelling (and/AND/&&, or/OR/||, EQ/==, NE/!=, GT/>, ...) or "
  "on letter case of keywords and hex digits. A malformed condition raises an error and never yields a value.",
  ["inputs", "programs"], "every condition built from the documented operators, operands, parentheses and macros",
  "The tests check some dozens of expressions; precedence, negation and spacing interact, and only enumeration of the "
  "expression space covers the combinations.",
  [U + "parsers/base_parser.py"],
  [("tokeniser and shunting-yard evaluation", "BaseParser.EvaluateConditional / _TokenizeConditional / _EvaluateTokens"),
   ("comparison", "BaseParser.ComputeResult / ConvertToInt")],
  "All expressions up to 4 operands over boolean, integer and string operands, all spellings and spacings of the "
  "operators, macro operands, and all sequences of <=6 (7) of 7 and <=5 (6) of 13 tokens, which are evaluated or refused, against a "
  "recursive-descent reference evaluator.",
  [("tokens", "operator/operand list of the condition")], ["EvaluateConditional", "ProcessConditional"],
  technique="exhaustive enumeration of an expression space on the real evaluator against a reference evaluator")

P("P03", "Macro references expand to exactly the value in force",
  "Each $(NAME) reference is replaced, in place and once, by the value of NAME in force at that point: the value supplied "
  "by the caller, else the last preceding definition active in the file; text that is not a reference is untouched. A "
  "reference to an undefined macro stays as it is, except in a condition, where it counts as 0, and !ifdef/!ifndef "
  "report exactly whether the macro has a value. Definitions made inside an FDF section are not visible in the next one, "
  "while those of [Defines] are.",
  ["programs", "histories"], "every sequence of definitions and references in DSC, FDF and INF files",
  "Tests use single macros with simple values; values that contain references, adjacent and partial references, and "
  "redefinitions are combinations no test samples.",
  [U + "parsers/base_parser.py", U + "parsers/dsc_parser.py", U + "parsers/fdf_parser.py", U + "parsers/inf_parser.py"],
  [("replacement", "BaseParser.ReplaceVariables"), ("definition", "each parser's __ParseLine DEFINE handling"),
   ("environment", "BaseParser.SetInputVars / LocalVars")],
  "All lines of up to 4 (5) pieces of references and near-references under 10 environments; all chains of up to 3 "
  "definitions in DSC, FDF and INF files; !ifdef over all environments; against a single-pass reference replacer.",
  [("LocalVars / InputVars", "values in force")], ["Dict, LocalVars, parse results"])

P("P04", "Comments, blank lines and white space never change what a file means",
  "A '#' starts a comment exactly when it is outside quoted strings, and everything before it is kept unchanged apart from "
  "surrounding whitespace. Adding or removing comment lines, trailing comments, blank lines or surrounding whitespace, "
  "writing tabs or several spaces between the words of a line or around its '|', '=', ',' and '{', and other line ends leave "
  "the parse result of a DSC, FDF, INF, DEC or target.txt file unchanged (texts kept as written keep their inner spaces).",
  ["inputs", "programs"], "every line and every insertion of comments, blanks or white space",
  "Quoting and escapes interact character by character, and an edit can be at any line of any format.",
  [U + "parsers/base_parser.py"], [("comment stripping", "HashFileParser.StripComment")],
  "All lines of up to 6 (7) characters over {a, space, #, \", ', \\, =}; all single and double comment/blank insertions "
  "in two files per format, all changes of white space at one or two places of each of their lines, and 4 kinds of line ends, "
  "against the unedited file's parse result.",
  [], ["StripComment", "parse results"])

P("P05", "DSC parsing reports every module, library, PCD and include that is there",
  "Parsing a DSC reports exactly the modules and library instances of its active sections, in order, each once per listing: "
  "component overrides ('{ <LibraryClasses> ... }', <PcdsX>, <BuildOptions>) never become modules or global libraries. "
  "Each library class maps, per architecture and module-type scope, to the instance listed last (all instances for NULL), "
  "PCD values are those in force, and sections of any spelling and order do not leak into one another. Splitting the file "
  "into !include files at any line, to any nesting, does not change the result. A line that cannot be understood is refused, or left out in no-fail mode.",
  ["programs", "histories"], "every sequence of sections and items",
  "Section state, override nesting and include state persist across lines, so errors appear only for particular sequences.",
  [U + "parsers/dsc_parser.py"],
  [("line state machine", "DscParser.__ParseLine"), ("library scopes", "DscParser.ScopedLibraryDict"),
   ("includes", "DscParser.__ProcessMore / include stack")],
  "All sequences of <=3 sections from 14, <=3 (4) component items, library listings, PCD conditions, and every split of a "
  "file into includes (nesting 2), lines with brackets and braces in their values, absolute and missing paths, against a reference interpreter of the "
  "generated program.",
  [("CurrentSection / override level", "where the parser is")],
  ["ThreeMods", "SixMods", "Libs", "ScopedLibraryDict", "PcdValueDict"])

P("P06", "FDF parsing reports every flash device, volume and file that is there",
  "Parsing an FDF reports each FD and FV section under its name, for each FV exactly its INF entries and FILE entries "
  "(type, GUID and contained sections) in order, and the definitions as defined. This holds for any order of sections, any "
  "length of the file and any split into !include files.",
  ["programs"], "every sequence of sections and statements, of any length",
  "Section and FILE-block state persists across lines; file length was a recursion limit that no test reaches.",
  [U + "parsers/fdf_parser.py"], [("line state machine", "FdfParser.ParseFile / GetNextLine / InsertLinesFromFile")],
  "All sequences of <=3 (4) sections from 10 and <=3 (4) statements of an FV, every include split (nesting 2), runs of "
  "0..3000 comment/inactive lines at every position, malformed statements, 5 forms of the file's path.",
  [], ["FVs", "FDs", "Dict"])

P("P07", "INF parsing reports every entry of every section",
  "Parsing an INF reports its definitions and, in order, exactly the entries of its Sources, Binaries, LibraryClasses, "
  "Packages, Protocols, PPIs, Guids and PCD sections, each attributed to the architectures its section header names, with "
  "trailing fields and comments cut off. LIBRARY_CLASS yields the class name and its supported phases. The result does "
  "not depend on the order of sections, and parsing another file with a fresh parser starts from nothing.",
  ["programs"], "every sequence of sections",
  "Sections may repeat in any order with any architecture list; tests only contain a few files.",
  [U + "parsers/inf_parser.py"], [("line state machine", "InfParser.ParseFile")],
  "All sequences of <=3 (4) sections from 20, all scoped source/library headers, all LIBRARY_CLASS forms, 5 forms of the file's path, 14 "
  "entries named like keywords between the entries of 12 x 12 sections, 7 macro values in 9 spellings.",
  [], ["InfParser attributes"])

P("P08", "DEC parsing reports every declaration of a package",
  "Parsing a DEC reports, in order, exactly its library classes, GUIDs, protocols, PPIs and PCDs, each with its fields "
  "(name, path or value, token space, default value, type and token), and its package definitions. A '|' inside a quoted "
  "default value does not split the entry, a structured PCD is one declaration, and parsing from a file and from a stream "
  "gives the same result.",
  ["programs"], "every sequence of sections and entries",
  "Field splitting, quoting and structured PCDs interact, in any section order.",
  [U + "parsers/dec_parser.py"], [("line state machine", "DecParser._Parse"), ("entries", "*DeclarationEntry")],
  "All sequences of <=3 (4) sections from 16 and of PCD entries with quotes and nested fields, malformed declarations at every position, 5 forms of the file's path.",
  [], ["DecParser attributes"])

P("P12", "GUID texts and UUIDs convert without loss and only well-formed text is accepted",
  "Every UUID survives conversion to registry format or C-initialiser format and back, and each format is recognised in "
  "any letter case, with or without braces and inner spaces, and with shortened C fields. Text that is neither format, "
  "including a GUID with extra characters, is refused: no UUID, and empty conversion results. The GUID list of a folder "
  "holds exactly the GUIDs declared in its DEC and INF files outside ignored paths, in upper-case registry format, under the "
  "right names and files.",
  ["inputs"], "every UUID and every spelling of it; every tree of DEC/INF files",
  "2^128 values and many spellings; byte-order and padding slips hit only particular bytes (for instance leading zeros).",
  [U + "parsers/guid_parser.py", U + "guid_list.py"],
  [("formats", "GuidParser"), ("gathering", "GuidList.guidlist_from_filesystem")],
  "All 256 values at each of 16 positions over 3 backgrounds plus byte pairs, all spellings; every one-character edit of 3 "
  "texts; placements of 6 files over 3 directories under 8 ignore lists.",
  [], ["uuid_from_guidstring", "guidlist_from_filesystem"])

# ---------------------------------------------------------------- paths and files
P("P13", "Absolute and EDK2-relative paths convert into one another without error",
  "The EDK2-relative path of a path below a packages path or the workspace is relative, with '/' separators, to the "
  "innermost packages path containing it, else to the workspace; a path outside of all (including one that only shares a "
  "name prefix with them) gives None. The absolute path of a relative one is the first that exists under the workspace and "
  "then the packages paths in order, else None. Relative packages paths are taken from the workspace or else the current "
  "directory, and those that do not exist are dropped or, if so requested, refused.",
  ["inputs", "configurations"], "every layout of workspace, packages paths and files",
  "Nesting, common name prefixes and ordering of packages paths interact; tests use a few fixed trees.",
  [U + "path_utilities.py"],
  [("conversion", "Edk2Path.GetEdk2RelativePathFromAbsolutePath / GetAbsolutePathOnThisSystemFromEdk2RelativePath"),
   ("construction", "Edk2Path.__init__")],
  "All ordered packages-path lists (<=2, thorough <=3 of 10 entries: nested, prefix-sharing, relative, missing, the "
  "workspace itself; each with either separator and as list, tuple and iterator) x all paths of a tree of nested same-named "
  "directories x 4 trees, against a reference.",
  [("PackagePathList / WorkspacePath", "roots in order")], ["Edk2Path conversions"])
P("P14", "The package and the modules that contain a path are found exactly",
  "GetContainingPackage returns the name of the nearest directory at or above the path and strictly below its root (the "
  "workspace, else a packages path) that has a .dec file, or None. GetContainingModules returns an .inf file itself, and "
  "otherwise exactly the .inf files of the nearest directory above the path that has any and lies strictly below the "
  "outermost root containing the path, or nothing; the result does not depend on the order of the packages paths.",
  ["inputs", "configurations"], "every placement of packages, modules and roots",
  "Where the search has to stop depends on the combination of roots and files, of which tests fix a few.",
  [U + "path_utilities.py"],
  [("upward search", "Edk2Path.GetContainingPackage / GetContainingModules")],
  "All placements of .dec files in 9 directories x 4 packages-path lists; .inf files in <=3 of 8 directories x all ordered "
  "lists of <=4 nested roots, against a reference.",
  [], ["GetContainingPackage", "GetContainingModules"])
P("P15", "gitignore rules match exactly the paths git would ignore",
  "parse_gitignore_lines/file decide for each path below the base folder what git decides: order of rules, '!' negation, "
  "anchoring, trailing '/', '*', '**', '?', '[...]', escapes, comments and trailing blanks. Every text is accepted without "
  "an exception, and folders pruned during a walk hide everything below them.",
  ["inputs"], "every list of ignore lines and every path",
  "Patterns are a small language; anchoring, wildcards and negation interact across lines.",
  [T + "gitignore_parser.py"], [("rules", "rule_from_pattern / IgnoreRule.match"), ("pattern to regex", "fnmatch_pathname_to_regex")],
  "All lists of <=2 of 48 lines (reduced: 3), all patterns of <=4 (5) tokens over 8, on a tree of 17 files; all patterns of "
  "<=4 (5) of 13 characters with brackets, ranges, escapes and blanks on 39 names; the reference itself is compared with "
  "'git check-ignore' where git is installed.",
  [], ["rule functions", "walks"])
P("P17", "RemoveTree removes the tree or reports that it did not, and touches nothing else",
  "RemoveTree returns normally only when the folder is gone; otherwise it raises RuntimeError (or, with ignore_errors, "
  "returns). Entries that fail to be removed transiently or for being read-only are retried and removed. Nothing outside of "
  "the tree is removed or has its mode changed, whatever symbolic links the tree holds.",
  ["faults", "crash_points"], "every tree and every sequence of removal failures",
  "Failures come from the operating system at any entry; no test injects them.",
  [T + "utility_functions.py"], [("retry loop and read-only handler", "RemoveTree")],
  "All plans of <=2 (3) faulty entries (fail 1, 2, 3, 5 times, for ever, until the mode changes, directory cannot be "
  "opened) in 4 trees with links, both modes, injected at the os calls.",
  [("fault plan", "remaining failures per entry")], ["the file system after RemoveTree"],
  technique="exhaustive fault injection at the os interface of the real code")

# ---------------------------------------------------------------- running programs
P("P16", "Running commands and scripts reports exactly what they wrote and returned",
  "RunCmd and RunPythonScript return the exit code of the command; the output stream receives all its stdout and stderr "
  "lines in order, and they always come back, whatever the amount, encoding or missing final newline of the output. "
  "Parameters, working directory, environment and quoted or space-containing names reach the child unchanged, and the "
  "caller's environment and directory are left as they were.",
  ["schedules", "inputs"], "every child process and argument string",
  "Reader thread and child run concurrently; pipe sizes and undecodable bytes matter, which tests with echo never reach.",
  [T + "utility_functions.py"], [("process and reader thread", "RunCmd / reader"), ("script lookup", "RunPythonScript")],
  "All children of <=2 (3) output steps of 9 (both streams, >64 KiB, UTF-8, partial lines) x sinks x return codes; "
  "undecodable bytes at every position; all argument and location combinations; each with a time limit.",
  [("pipe", "what the child has written and the reader has taken")], ["return code, outstream, log, environment"])
P("P18", "Hex dumps and C arrays show exactly the bytes given",
  "hexdump writes one line per 16 bytes with the right offset, each byte in order in hexadecimal, and the printable "
  "characters in an ASCII column at the same place on every line, for every combination of options. export_c_type_array "
  "writes a C array declaration with exactly the bytes from the stream's position on, rows of the given width, the stated "
  "length, and comments that never swallow the next line; empty input is refused.",
  ["inputs"], "all byte strings, lengths and option combinations",
  "Line ends and partial lines depend on length modulo row width and on option combinations.",
  [T + "utility_functions.py"], [("dump", "hexdump"), ("C array", "export_c_type_array")],
  "Lengths 0..49 and around 64, 256, 300 (thorough: all <600) x contents x 8 option sets x 4 offsets; C arrays of <40 "
  "(120) bytes x 6 row widths x options; outputs are parsed back.",
  [], ["the text written"])
P("P19", "Versions are totally ordered; class, module and host lookups are exact",
  "version_compare orders dotted versions numerically, component by component, antisymmetrically and whatever their "
  "lengths; locate_class_in_module returns the most derived subclass a module exposes, None without one, and "
  "raises an error when unrelated ones compete. import_module_by_file_name loads exactly the named file, and GetHostInfo reports the operating system, "
  "architecture and width of the machine.",
  ["inputs", "configurations"], "all pairs of versions; all class hierarchies; all hosts",
  "An ordering is a property of all pairs; class choice depends on the definition order and shape of the hierarchy.",
  [T + "utility_functions.py"],
  [("ordering", "version_compare"), ("class lookup", "locate_class_in_module"), ("host", "GetHostInfo")],
  "All pairs of 136 versions; all single-inheritance forests of <=4 (5) classes with all names and visible subsets; 4 "
  "systems x 12 machines.",
  [], ["return values"])
P("P20", "Windows tools are located deterministically and only suitable ones are returned",
  "FindToolInWinSdk returns a binary of the configured SDK version if there is one, else of the highest version, never one "
  "of an architecture the host cannot run, and the answer does not depend on the order in which the binaries are found. "
  "QueryVcVariables queries the first installation that has vcvarsall.bat with the given product, architecture and "
  "versions and returns exactly the requested variables or raises an error. vswhere results are returned in order, and a "
  "downloaded vswhere.exe is kept only if its hash is the known one.",
  ["configurations", "inputs"], "every set and order of installed binaries, installations and environments",
  "The result depends on directory order and on what is installed; the tests need Windows and see one installation.",
  [U.replace("uefi/edk2/", "") + "windows/locate_tools.py"],
  [("SDK search", "FindToolInWinSdk"), ("vcvarsall", "QueryVcVariables"), ("vswhere", "FindAllWithVsWhere / GetVsWherePath")],
  "All permutations of <=3 (4) of 11 candidate binaries x 3 hosts x 4 configurations; installations x environments x key "
  "sets; vswhere outputs and download outcomes; Windows is represented by stand-ins.",
  [], ["return values", "commands started", "files kept"])
P("P09", "target.txt settings and #OVERRIDE lines are read exactly or refused",
  "Parsing Conf/target.txt yields exactly its KEY = value lines, in order, the last one of a key winning, with comments cut "
  "off and values (including '=' and quoted '#') intact. An OverrideParser reports every #OVERRIDE line of an INF with its "
  "line number, normalised path, hash and date; a file without such lines, or with one whose version, number of fields or date "
  "is not valid, is refused with ValueError.",
  ["inputs"], "every sequence of lines and every combination of fields",
  "Malformed and unusual lines combine in many ways; tests have a handful of good files.",
  [U + "parsers/targettxt_parser.py", U + "parsers/override_parser.py"],
  [("key/value lines", "TargetTxtParser.ParseFile"), ("override lines", "OverrideParser.parse_override_line / get_override_lines")],
  "All sequences of <=3 (4) lines from 14; all combinations of 8 versions, 5 paths, 2 hashes, 7 dates, 5 line heads and "
  "field counts; files of <=3 (4) lines; files named by absolute, workspace, packages-path and missing paths.",
  [], ["TargetTxtParser.Dict", "OverrideParser.overrides"])
P("P10", "Build reports are read back as they were written",
  "Reading a build report gives each module of the report under its GUID with its name, type, INF path, library instance per "
  "class (NULL libraries numbered), final PCD values, DEPEX expression and the firmware volume that holds it. This holds for "
  "any order of regions and sections and for wrapped lines, and paths below the workspace or packages paths become relative.",
  ["programs"], "every report in BaseTools' layout",
  "Regions, sections and wrapped lines are recognised by a state machine; the repository has few tests for it.",
  [U + "parsers/buildreport_parser.py"],
  [("regions", "BuildReport.BasicParse"), ("module sections", "ModuleSummary.Parse"), ("firmware volumes", "BuildReport._ParseFdRegionForModules")],
  "All permutations of <=3 library/PCD pieces, <=3 sections and <=5 regions, 2 header layouts, 4 path kinds, with and "
  "without word replacement, lines of all kinds wrapped at every width; compared with the generated content.",
  [("section flags", "the part of a module summary that is being read")], ["BuildReport.Modules"])
P("P11", "Instanced INFs are exactly the modules and libraries the platform would build",
  "InstancedInfTable records, per component listing and architecture of the platform, the module and every library instance it reaches, with "
  "their sources for that architecture and linked to the instances that satisfy their library classes. An instance is chosen by "
  "component override first, then arch.type, common.type, arch, common, the later listing of a scope winning, among those that "
  "support the module's type; NULL libraries of all scopes and overrides are added.",
  ["programs", "configurations"], "every set of library listings, overrides and library graphs",
  "The result depends on the combination of scopes, order, overrides and cycles among libraries; a single platform shows one.",
  [U.replace("uefi/edk2/", "") + "database/tables/instanced_inf_table.py", U + "parsers/dsc_parser.py"],
  [("resolution", "InstancedInfTable._lib_to_instance"), ("graph walk", "InstancedInfTable._parse_inf_recursively"),
   ("linking", "InstancedInfTable._insert_db_rows"), ("listings", "DscParser")],
  "All sequences of <=2 (3) listings over 8 scopes x 3 instances; all sets of <=3 (4) of 13 listings that form library "
  "graphs; <=3 of 7 overrides x 3 component sets; an independent resolver is the reference.",
  [("resolved libraries", "the instances reached for one component")], ["rows of the instanced_inf table and its relations"])
P("P21", "Changing a variable store rewrites exactly its variables and nothing else",
  "A VariableStore opened on a firmware image lists exactly the variables of the store, in order. After any sequence of adding, "
  "changing and removing variables, flush_to_file and reopening, the file holds exactly these variables and a terminator, all "
  "bytes outside the store are unchanged, and variables that do not fit are refused before anything is written. Images whose "
  "headers do not describe a healthy store of the given place and size are refused.",
  ["histories", "inputs"], "every sequence of operations on every small store",
  "Variables of any size fill a store after some history; tests flush one good store once.",
  [U + "variablestore_manulipulations.py", U + "variable_format.py"],
  [("loading", "VariableStore.__init__"), ("writing", "VariableStore.flush_to_file")],
  "Histories of <=4 (5) of 11 operations on stores of both formats; all stores of <=2 (3) of 5 variables with every slack; 9 "
  "defects of headers; the image is compared with an independently built one.",
  [("file image", "bytes of the firmware image after each operation")], ["VariableStore.variables", "the firmware file"])
P("P22", "Variables, store and volume headers round trip through their UEFI layout",
  "A variable record (plain or authenticated) built from any name, data and fields serialises to the layout of the EDK II headers, padded to 4 bytes, "
  "and is read back identically from a file or from bytes, wherever the file is positioned. Variable store headers "
  "round trip likewise, damaged ones being refused. EfiVariableAttributes converts any value to its bytes and names, and any "
  "list of names to its value.",
  ["inputs"], "all names, data and field values",
  "Sizes, padding and text encodings interact with every value; tests sample a few.",
  [U + "variable_format.py", T + "uefi/uefi_multi_phase.py"],
  [("records", "VariableHeader / AuthenticatedVariableHeader"), ("store", "VariableStoreHeader"), ("attributes", "EfiVariableAttributes")],
  "Products of 14+ names, data lengths and boundary values of every field; all cuts; all 128 attribute sets and all short "
  "sequences of names; the oracle packs the structures on its own.",
  [], ["serialised bytes", "object fields"])
P("P23", "Variable policies are decoded exactly and malformed ones are refused",
  "Decoding a sequence of VARIABLE_POLICY_ENTRYs yields each entry's fields, name and lock state exactly, and returns the rest of the "
  "buffer so that all entries are reached; the rows written to CSV describe the same entry. Nothing of a previous decode survives, and "
  "unknown versions or lock types and unterminated names are refused.",
  ["inputs", "histories"], "every sequence of entries",
  "Entries have optional, variable-length parts that must not leak between entries.",
  [U + "variable_policy.py"],
  [("entries", "VariablePolicyEntry.decode"), ("lock states", "VariableLockOnVarStatePolicy.decode"), ("rows", "VariablePolicyEntry.csv_row")],
  "Products of lock types, names and boundary values; all sequences of <=3 (5) of 5 entries on one reused object; every cut "
  "and defect.",
  [("decoder object", "fields left by the previous entry")], ["object fields", "remaining buffer", "csv_row"])
P("P24", "Firmware volume, file and fault tolerant write headers round trip exactly",
  "EfiFirmwareVolumeHeader, EfiFirmwareVolumeExtHeader, EfiFirmwareFileSystemHeader, EfiFtwWorkingBlockHeader, "
  "EfiFtwWriteHeader and EfiFtwWriteRecord read each field from its place in the UEFI layout without moving the file position, and write the same "
  "bytes again, for every field value. Truncated headers and headers with a wrong signature are refused.",
  ["inputs"], "all values of all fields",
  "Field widths and signs show only at boundary values.",
  [T + "uefi/pi_firmware_volume.py", T + "uefi/pi_firmware_file.py", U + "ftw_working_block_format.py"],
  [("volumes", "EfiFirmwareVolumeHeader"), ("files", "EfiFirmwareFileSystemHeader"), ("write queue", "EfiFtwWriteRecord")],
  "All pairs (triples) of boundary values of all fields; all cuts and signature byte changes, at 3 file offsets.",
  [], ["object fields", "serialised bytes"])
P("P25", "Signature lists and databases keep sizes, order and duplicates right",
  "A signature made from a value, a content or a stream, and printed, is exactly its owner and data. Any EFI_SIGNATURE_LIST built, merged or sorted encodes to a list whose sizes match its contents and which decodes to "
  "the same signatures. get_canonical_and_dupes leaves its database unchanged, and its two results partition the signatures: the canonical one "
  "is sorted, merged and free of duplicates, the other holds the remaining ones. Lists whose sizes are inconsistent are refused.",
  ["inputs", "histories"], "every sequence of operations and every database",
  "Merging and deduplication depend on order, repetition and sharing of lists; tests use a few databases.",
  [T + "uefi/authenticated_variables_structure_support.py"],
  [("lists", "EfiSignatureList"), ("canonical form", "EfiSignatureDatabase.get_canonical_and_dupes")],
  "Histories of <=4 (5) of 10 operations; databases of <=4 (5) of 10 lists; all sizes in malformed lists; an independent "
  "encoder and deduplication is the reference.",
  [("signature list", "signatures and size fields after each operation")], ["encoded bytes", "lists of the databases"])
P("P26", "Authenticated variables carry the right digest, signature and payload",
  "EfiTime and EfiVariableAuthentication2 round trip through their UEFI layout; made without a time, they have the time at which they are made. Whatever payloads a builder is given, the digest "
  "is name, GUID, attributes, time and the last payload, the finished variable holds this payload, and its detached PKCS#7 "
  "signature verifies over the digest with the signer's certificate.",
  ["inputs", "histories"], "every sequence of payload updates, every signer and option",
  "The signature is over several inputs that can be updated; tests compare one stored result.",
  [T + "uefi/authenticated_variables_structure_support.py"],
  [("time", "EfiTime"), ("variable", "EfiVariableAuthentication2"), ("signing", "EfiVariableAuthentication2Builder")],
  "Boundary values of all time fields; all sequences of payload kinds x signers x options x attributes; signatures "
  "are verified independently.",
  [("builder", "digest and payload after each update")], ["digest", "encoded variable", "signature"])
P("P27", "WIN_CERTIFICATE structures are read and written exactly or refused",
  "WinCertUefiGuid and WinCertPkcs1 encode any certificate data with the matching dwLength, whatever was encoded, decoded or set "
  "before, and decode it again from bytes or from a stream, leaving exactly what follows the certificate. Truncated certificates, wrong lengths, "
  "revisions and types are refused without changing the object's data.",
  ["inputs", "histories"], "every sequence of operations; every length field",
  "Length fields are maintained by several methods; tests call them once.",
  [T + "uefi/wincert.py"],
  [("UEFI GUID", "WinCertUefiGuid"), ("PKCS1", "WinCertPkcs1"), ("factory", "WinCert.factory")],
  "Histories of <=4 (5) of 12 operations; products of types, GUIDs, revisions, data and tails; all cuts and lengths.",
  [("certificate object", "data and dwLength")], ["encoded bytes", "stream position"])
P("P28", "Capsules of any nesting are encoded consistently and decoded to the same nesting",
  "UefiCapsuleHeaderClass, FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass, FmpAuthHeaderClass and FmpPayloadHeaderClass write headers "
  "whose sizes, counts and item offsets match the contents, for any number of drivers, images, vendor codes and nested "
  "headers, and decode them, also into a used object, to exactly the same parts. Encoding again gives the same "
  "bytes. Buffers whose sizes, offsets, signatures or versions do not fit are refused.",
  ["inputs", "histories"], "every nesting of headers and every byte string",
  "The five layers have sizes that depend on each other; tests encode one nesting.",
  [T + "uefi/uefi_capsule_header.py", T + "uefi/fmp_capsule_header.py", T + "uefi/fmp_auth_header.py", U + "fmp_payload_header.py"],
  [("capsule", "UefiCapsuleHeaderClass"), ("items", "FmpCapsuleHeaderClass"), ("signature", "FmpAuthHeaderClass"), ("payload", "FmpPayloadHeaderClass")],
  "All nestings with <=2 (3) drivers and images from 11 kinds of images; all values of every byte (of pairs of bytes), cuts and insertions "
  "in 5 capsules; an independent encoder and decoder is the reference.",
  [("capsule object", "nested headers and payloads, fresh or used before")], ["encoded bytes", "nested header objects"])
P("P29", "Generated driver packages describe exactly the given firmware",
  "The INF files written by InfFile and InfGenerator contain, for every firmware added, its description, ESRT GUID, version, files, "
  "rollback and integrity settings, each section and string defined once and each reference resolved, for the chosen architecture and OS version. Values that "
  "would break a line or exceed a DWORD are refused and leave nothing half added. CatGenerator runs Inf2Cat for the "
  "chosen architecture and operating system, and a failed run or a missing catalog file is reported.",
  ["inputs", "histories"], "every sequence of firmwares and every name, version, GUID and file",
  "Sections refer to each other by name; tests compare a few complete files as text.",
  [T + "windows/capsule/inf_generator2.py", T + "windows/capsule/inf_generator.py", T + "windows/capsule/cat_generator.py"],
  [("several firmwares", "InfFile.AddFirmware"), ("one firmware", "InfGenerator.MakeInf"), ("catalog", "CatGenerator.MakeCat")],
  "All orders of <=3 (5) firmwares, all architectures, OS versions and options; every field with values that cannot be written; "
  "files are read back by an independent INF parser.",
  [("INF file", "sections, source files and strings")], ["generated text", "Inf2Cat command line"])
P("P30", "Firmware policies keep exactly their rules when serialised and parsed",
  "A FirmwarePolicy holds every rule added once, and serialising it gives a header, rules and a value table in which every offset leads to the "
  "rule's names and value. Parsing it again, by bytes or by offsets and into a used object too, gives equal rules, wherever the value table "
  "puts or shares its entries. Policies that are truncated, too new or whose entries leave the table are refused.",
  ["inputs", "histories"], "every sequence of rules, every layout of the value table and every byte string",
  "Offsets depend on the encoded length of all earlier strings; tests use a few ASCII rules.",
  [T + "windows/policy/firmware_policy.py"],
  [("building", "FirmwarePolicy.AddRule"), ("parsing", "FirmwarePolicy.FromFileStream"), ("rules", "Rule"), ("values", "PolicyValue")],
  "Histories of <=3 (4) operations; all pairs of rules from boundary strings and values; all layouts of the table for <=3 (4) rules; all "
  "values of every byte, cuts and insertions in 4 policies; an independent reader and writer is the reference.",
  [("policy object", "rules and counts")], ["serialised bytes", "rules", "printed actions"])
P("P31", "TPM commands, response codes and policy digests follow TPM 2.0",
  "A Tpm2CommandStream marshals to its header and elements, with the size of all of them, also after elements are updated. Command code names and "
  "values map one to one, and every response code is decoded to the layer, number and error the specification gives it. The digest of any tree of AND, "
  "OR and single assertions is the one a TPM computes, and parts that a TPM does not have (localities, commands, OR junctions of more than eight) are refused.",
  ["inputs", "histories"], "every policy tree, response code and sequence of stream updates",
  "A digest composes those of the parts below; tests compute a handful of trees and codes.",
  [T + "tpm/tpm2_defs.py", T + "tpm/tpm2_stream.py", T + "tpm/tpm2_policy_calc.py"],
  [("response codes", "ResponseCode.parse_code"), ("streams", "Tpm2CommandStream"), ("trees", "PolicyTreeOr"), ("localities", "PolicyLocality")],
  "All response codes of 14 (17) bits; all streams of <=2 (3) elements and <=4 (5) steps; all trees of two levels over all localities and commands.",
  [("command stream", "elements and size")], ["marshalled bytes", "digest", "decoded response code"])
P("P32", "The TPM simulator client sends each command once and returns its response",
  "However the network splits the data, TpmSimulator sends each command with its locality and size once and returns "
  "the whole response to it and nothing of another one, waiting as long as there is no result. A closed connection is reported.",
  ["schedules", "histories", "faults"], "every split of the data into chunks and every point at which the connection closes",
  "Splits depend on the network's timing; the tests have no simulator.",
  [T + "tpm/tpm2_simulator.py"],
  [("sending", "TpmSimulator.send_data"), ("reading", "TpmSimulator.read_raw_data")],
  "All splits of the answers with <=3 (5) cuts, all sequences of <=3 (4) of 6 commands, connections closed after every number of bytes, with stand-ins for the sockets.",
  [("socket", "bytes on the way in both directions")], ["bytes sent", "response returned"])
P("P33", "A DMAR table is parsed into exactly its structures or refused",
  "DMARTable finds every remapping structure and device scope of a DMAR table in order, with all of its fields and its device path, and nothing else; the DMAR bit, "
  "the number of ANDDs, the text and the XML, which is well-formed, describe the same. CheckRMRRCount holds if and only if the path of every RMRR is in the golden file. "
  "Tables with reserved types or with lengths that do not fit are refused, in finite time.",
  ["inputs"], "every table of any structures and scopes, and every byte string",
  "Structures and scopes nest with lengths of their own; tests parse a few single structures.",
  [T + "acpi/dmar_parser.py"],
  [("tables", "DMARTable"), ("structures", "RMRRStruct"), ("scopes", "DeviceScopeStruct"), ("golden file", "CheckRMRRCount")],
  "All sequences of <=3 (4) of 12 structures; all values of every byte of header, structures and scopes; all cuts and lengths; an "
  "independent reader is the reference.",
  [], ["parsed objects", "text", "XML"])
P("P34", "An IVRS table is decoded, edited and encoded consistently",
  "IVRS_TABLE decodes every IVHD, IVMD and device entry with all fields, also into a used object, and encodes them to the same bytes. Adding entries keeps length and "
  "checksum right, and the XML, which is well-formed, and the printed text describe the entries. Tables whose checksum, lengths, types, ranges or id formats are wrong are refused.",
  ["inputs", "histories"], "every table of any entries, every sequence of additions and every byte string",
  "Entries of variable length nest and every addition changes the header; tests decode a few entries.",
  [T + "acpi/ivrs_parser.py"],
  [("tables", "IVRS_TABLE"), ("IVHDs", "IVHD_STRUCT"), ("IVMDs", "IVMD_STRUCT"), ("device entries", "DEVICE_TABLE_ENTRY")],
  "All sequences of <=3 (4) of 8 entries and of 13 device entries; all values of every byte; histories of <=4 (5) additions; all cuts and lengths; an independent "
  "reader and writer is the reference.",
  [("table", "entries, length and checksum after each addition")], ["encoded bytes", "fields", "XML", "printed text"])
P("P35", "Bitmap files round trip exactly or are refused",
  "A BmpObject read from any position of a stream, also into a used object, holds exactly the headers, color map, padding and pixels of the file, and writes "
  "the same bytes again; changed fields, colors and pixels are written. Truncated files, files with more data and sizes, offsets and color maps "
  "that do not fit are refused.",
  ["inputs", "histories"], "every combination of sizes, color maps and padding, and every byte string",
  "Where the parts begin depends on several header fields; tests use two bitmaps.",
  [T + "uefi/bmp_object.py"],
  [("bitmaps", "BmpObject"), ("colors", "BmpColorMap")],
  "14256 (28512) shapes; all values of every header byte, all cuts, all pairs of fields with boundary values; an independent reader is the reference.",
  [("bitmap object", "fresh or used before")], ["fields and parts", "written bytes"])
P("P36", "A device path is decoded into exactly its nodes or refused",
  "DevicePathFactory decodes every device path into its nodes, in order, each with its type, subtype, length, data and all the fields of its kind; unknown "
  "types and subtypes are kept as such. The text is JSON and describes the same. Paths with nodes shorter than their fields, overlapping or leaving "
  "the buffer are refused, in finite time.",
  ["inputs"], "every sequence of nodes of any kind, length and content, and every byte string",
  "Every node decides where the next one begins and has its own layout; tests decode one path of each kind.",
  [T + "uefi/device_path.py"],
  [("paths", "DevicePathFactory.from_binary"), ("headers", "EfiDevicePathProtocol.decode"), ("names", "DEVICE_PATH_SUBTYPES"), ("fields", "HardDriveDevicePath")],
  "All sequences of <=3 (4) of 19 nodes; all types and subtypes; all values of every data byte; all lengths, cuts and header lengths; an independent reader is "
  "the reference.",
  [], ["nodes", "fields", "JSON text"])
P("P37", "The text of a status code is the one of the UEFI specification",
  "UefiStatusCode gives every 32-bit and 64-bit code, as a number or in hexadecimal, the name the UEFI specification lists for it, and 'Undefined StatusCode' to every "
  "code that is not listed; the two widths agree on the codes they share.",
  ["inputs"], "every 32-bit and 64-bit code and its spellings",
  "A code is undefined if any high bit is set; tests convert a few codes.",
  [T + "uefi/status_codes.py"],
  [("32 bits", "UefiStatusCode.Convert32BitToString"), ("64 bits", "UefiStatusCode.Convert64BitToString")],
  "All codes below 2^16 (2^20) with and without the high bit; all values with <=2 (3) of the other bits and their complements; 8 spellings.",
  [], ["name of the code"])
P("P38", "The workspace database describes the files of each parse and keeps earlier ones",
  "After every parse of a changing workspace the tables hold what the files are: sources, INFs, libraries, packages and their repositories as of now, and environments, instanced INFs and "
  "FVs of this parse under its own id, referring to each other correctly. Those of earlier parses stay as they were; parsing again adds nothing twice; "
  "a reopened database continues.",
  ["histories"], "every sequence of changes to the workspace and parses",
  "What a parse leaves depends on all earlier ones; tests parse a fresh database once.",
  [T + "database/edk2_db.py", T + "database/tables/instanced_inf_table.py", T + "database/tables/inf_table.py", T + "database/tables/instanced_fv_table.py",
   T + "database/tables/source_table.py", T + "database/tables/package_table.py", T + "database/tables/environment_table.py", T + "database/__init__.py"],
  [("parsing", "Edk2DB.parse"), ("INFs", "InfTable"), ("instances", "InstancedInfTable"), ("FVs", "InstancedFvTable"), ("sources", "SourceTable"), ("packages", "PackageTable"),
   ("environments", "EnvironmentTable")],
  "All histories of three parses with one of 11 changes before each, 39 (all 2048) states of the workspace to their complements and back, reopened databases; an "
  "independent reader of the workspace is the reference.",
  [("workspace", "set of 11 changes"), ("database", "rows of all tables after every parse")], ["rows of all tables"])
P("P39", "A table generator's rows are committed all or not at all",
  "Wherever a parse fails, in a file, a statement or a commit, or the process ends, the database holds all rows of every generator that was done and none of those that were not, "
  "rows of earlier parses are as before, and the next parse succeeds. Sessions commit if they end normally and leave nothing otherwise.",
  ["faults", "crash points", "histories"], "every point of a parse at which it can fail or end",
  "A failure can come at any statement; tests have none.",
  [T + "database/edk2_db.py", T + "database/tables/instanced_inf_table.py", T + "database/tables/instanced_fv_table.py", T + "database/tables/source_table.py"],
  [("transactions", "Edk2DB.session"), ("parsing", "Edk2DB.parse"), ("generators", "TableGenerator"), ("instances", "InstancedInfTable"), ("FVs", "InstancedFvTable")],
  "An exception at every opened file, SQL statement and commit of 4 (8) parses, followed by another parse; the files of the database copied before and after every statement and at "
  "every commit, as a crash leaves them; all sessions of <=4 additions that end at any point.",
  [("database", "rows of each generator: before, after")], ["rows seen by another connection", "rows after a crash"])
P("P40", "DSC objects keep their identity in sets, sections and comparisons",
  "Objects of a DSC are equal if and only if they are the same thing to the DSC (by name, path, case or section, whatever their values), equal ones have equal hashes. A "
  "dsc_set holds the last object of each identity and a dsc_dict one section per header; other kinds, headers and sections that exist are refused. DSCs are "
  "equal if and only if their sections hold the same things.",
  ["inputs", "histories"], "every pair of objects and every sequence of additions and removals",
  "Equality, hashes and replacement must agree on all pairs; tests compare a few objects.",
  [U + "build_objects/dsc.py"],
  [("sets", "dsc_set"), ("sections", "dsc_dict"), ("SKUs", "sku_id"), ("libraries", "library_class"), ("headers", "dsc_pcd_section_type"), ("DSCs", "class dsc")],
  "All pairs of 342 objects of 14 kinds; all histories of 4 (5) additions and removals of 5 objects, of 3 (4) operations on 4 sections; all kinds for all "
  "collections; all pairs of DSCs that differ in one member.",
  [("set", "identities held, with their last objects"), ("dictionary", "headers with their sets")], ["members", "equality", "refusals"])
P("P41", "A DSC object is translated into a DSC with exactly its content",
  "The file DscTranslator writes has every section of the DSC object once, under its header, with every entry in its syntax and all of its parts, "
  "components with their PCDs, libraries, definitions and build options, and nothing else. A file that exists is replaced.",
  ["inputs", "histories"], "every combination of sections and entries",
  "Every kind of section and entry has its own syntax; tests only check that a few lines exist.",
  [U + "build_objects/dsc_translator.py"],
  [("files", "DscTranslator.dsc_to_file"), ("sections and entries", "DscTranslator._GetDscLinesFromDscObj"), ("components", "DscTranslator._FormatComponent")],
  "All sets of <=4 sections with all sets of <=3 entries for 5 collections; all combinations of 8 collections; all subsets of a component's parts; all "
  "pairs of 9 texts in all kinds of entries; an independent reader of the text is the reference.",
  [], ["sections and entries of the file"])
P("P42", "Log handlers write exactly the records they should, whole and in order",
  "A handler writes every record that is not below its level and passes its filters, once, in order and, whichever threads log, never mixed with others; stripping removes exactly the control "
  "sequences and a Windows console gets the colors they stand for. Coloring and Azure formatting change nothing but the text: records are as before, even if "
  "they cannot be formatted. The string handler reads back what was logged.",
  ["inputs", "histories", "schedules", "faults"], "every sequence of records, filters and texts, and every schedule of the logging threads",
  "Tests format a few records in one thread.",
  [T + "log/ansi_handler.py", T + "log/string_handler.py", T + "log/file_handler.py"],
  [("formatting", "ColoredFormatter.format"), ("stripping and colors", "ColoredStreamHandler.write_and_convert"), ("strings", "StringStreamHandler"), ("files", "FileHandler")],
  "All sequences of <=2 (3) records; all texts of <=5 (6) of 9 tokens; all pairs of color codes with a stand-in for the console; all schedules with <=3 (4) preemptions of 2 threads with "
  "<=2 records and of 3 threads, with and without failing writes, under a controlled scheduler.",
  [("stream", "text written and position"), ("threads", "position of each, owner of the handler's lock")], ["text", "file", "colors of the console", "the record"],
  "bounded exhaustive exploration of the real code, with all thread schedules up to a preemption bound, against a reference model")
P("P43", "A JUnit report is well-formed XML that says exactly what was reported",
  "Whatever names, messages and outputs are reported, the file is well-formed, and parsing it gives every suite and case in order with its name, time, result and output, and the right "
  "counts. A case has one result; setting another one, and writing reports with unfinished cases, is refused.",
  ["inputs", "histories"], "every report, text and sequence of results",
  "Every character in every field matters; tests use a few that need escaping.",
  [T + "log/junit_report_format.py"],
  [("results", "JunitReportTestCase"), ("counts", "JunitReportTestSuite.Output"), ("files", "JunitTestReport.Output")],
  "All code points and all texts of <=2 (3) of 22 tokens in all fields; all histories of <=5 (6) operations; all reports of <=2 suites of <=2 (3) cases; an XML parser "
  "is the reference.",
  [("test case", "result, message, outputs, time")], ["parsed report", "refusals"])
P("P44", "UEFI variables are read, listed, written and deleted on Linux exactly as asked",
  "GetUefiVar, SetUefiVar and GetUefiAllVarNames read, write (in one write, with attributes), delete and list exactly the named variables of efivarfs, whatever their names, data and "
  "immutability, and leave all others alone; missing variables are reported as such. The only command run is chattr for the variable's file.",
  ["inputs", "histories"], "every sequence of operations, name and value",
  "There are no tests, as they would change the machine's variables.",
  [T + "os/uefivariablesupport.py"],
  [("reading", "UefiVariable.GetUefiVar"), ("listing", "UefiVariable.GetUefiAllVarNames"), ("writing", "UefiVariable.SetUefiVar")],
  "All histories of <=3 (4) operations on 3 variables; 25 names (all pairs) with characters of shells; 7 values, 9 attributes; all sets of files; in a scratch "
  "directory that stands for efivarfs and has its immutable files.",
  [("efivarfs", "files, immutable or not")], ["results", "files and writes", "commands"])
P("P45", "UEFI variables are read, listed, written and deleted on Windows exactly as asked",
  "Off Linux, the same operations go through the firmware API of Windows: each reads, writes (with or without attributes), deletes or lists exactly what is asked, with enough buffer "
  "for any size, also when variables appear meanwhile; a failure is reported with the firmware's error and changes nothing; the privilege is held.",
  ["inputs", "histories", "faults"], "every sequence of operations, size and failing call",
  "The code only runs on Windows, against the machine's firmware; there are no tests.",
  [T + "os/uefivariablesupport.py"],
  [("reading", "UefiVariable.GetUefiVar"), ("listing", "UefiVariable.GetUefiAllVarNames"), ("writing", "UefiVariable.SetUefiVar"), ("privilege", "UefiVariable.__init__")],
  "All histories of <=2 of 34 calls and of 3 of 12 (<=3 of 34); every call of 4 histories failing with every error; sizes up to 1 MiB + 1 and listings of up to 40 (200) names "
  "that grow between calls; against a model of the firmware API that stands for Windows.",
  [("firmware", "variables, attributes, privilege, last error")], ["results", "variables", "calls of the API"])
P("P46", "Signing runs signtool on exactly the given files and delivers the signature",
  "DetachedSignWithSignTool and CatalogSignWithSignTool run the given signtool once, on the given file, with the given certificate, password, OID and EKU, wherever they are and "
  "however their paths are given. The detached signature ends up in exactly the requested file. A failure of signtool is returned, a missing tool refused.",
  ["inputs", "environment"], "every layout of files and directories, options and outcome of signtool",
  "Tests replace the command; paths with spaces, relative paths and failures interact.",
  [T + "utility_functions.py"],
  [("detached", "DetachedSignWithSignTool"), ("catalogs", "CatalogSignWithSignTool")],
  "5 layouts (absolute, relative, bare names, spaces) of tool, file, certificate and output; <=2 or >=6 (all) of 7 variations; 5 behaviours of a stand-in for signtool that really runs.",
  [], ["arguments signtool got", "files left", "result"])
P("P47", "A deprecated name does exactly what the name that replaces it does",
  "Code that uses the old names (methods, attributes, functions, path setters) gets the same results, exceptions, output and state as code that uses the new "
  "ones, in any mixture. An old name warns that it is deprecated; a new one never does, however much it does inside.",
  ["histories"], "every sequence of calls by old and new names",
  "Each alias has its own code and defaults; tests hardly use them.",
  [T + "uefi/wincert.py", T + "uefi/authenticated_variables_structure_support.py", U + "parsers/base_parser.py", T + "utility_functions.py"],
  [("certificates", "WinCert*.PopulateFromFileStream / Print / Write / ..."), ("signatures", "EfiSignature*.GetBytes / ..."), ("paths", "BaseParser.SetBaseAbsPath / SetPackagePaths"),
   ("functions", "PrintByteList")],
  "All histories of <=2 (3) operations on 9 kinds of objects, each by the old or the new name; all calls of the functions and path setters.",
  [("object", "all attributes")], ["results, exceptions, streams, state, warnings"])
P("P48", "Files named in description files are found by precedence, and no others",
  "An absolute path names that file. Any other path names the first that exists of: below the workspace, next to the file being parsed (in a DSC, the one with "
  "the !include), below the package paths in order; never in the current directory. An !include of a missing file is refused. The lines of a parsed DSC are exactly its "
  "active lines with macros and includes replaced; written to a file, they parse to the same.",
  ["inputs", "programs"], "every layout of files, form of path and nesting of includes",
  "Files of the same name in several places, and nested includes, only show in combination.",
  [U + "parsers/base_parser.py", U + "parsers/dsc_parser.py", U + "parsers/fdf_parser.py"],
  [("search", "BaseParser.FindPath"), ("includes", "DscParser / FdfParser !include"), ("lines", "BaseParser.WriteLinesToFile")],
  "All sets of 6 places with 15 forms of paths; all sets of 6 places with 5 nestings of includes in DSC and FDF files; all sequences of <=3 (4) of 10 fragments of DSC files.",
  [("target file", "the file whose lines are being read")], ["path found", "content", "lines"])

P("P49", "What one object did never shows in another one",
  "Every operation gives in a process that did other things before what it gives in a fresh one: parsers, encoders, builders, catalogues and helpers share no state "
  "between objects or calls, results that were given out do not change because of later operations, changing a result changes no other one, neither an earlier nor a later one, "
  "and files are read as they are now.",
  ["histories"], "every order of operations of one process, with earlier results alive or changed by their owners",
  "Tests run each operation once in one order, and look at one object at a time; a shared list, a default argument or a cache only shows in the second one.",
  [U + "parsers/inf_parser.py", U + "parsers/base_parser.py", U + "guid_list.py", U + "build_objects/dsc.py", T + "utility_functions.py", T + "acpi/ivrs_parser.py"],
  [("shared defaults", "InfParser.SupportedPhases"), ("containers of new objects", "dsc.component / dsc.dsc"), ("modules by name", "import_module_by_file_name")],
  "All ordered pairs of about 130 operations, results kept and changed in between; all triples and five-fold repetitions within a class; all sequences of <=3 (4) within a class in one "
  "folder with replaced files. Each in a process of its own.",
  [("process", "all state of the library in one process")], ["all public attributes and results"])
P("P50", "Threads that use the library at the same time do not disturb each other",
  "An operation of one thread gives what it gives alone, wherever another thread's operation on other objects and other files runs in between, and so does that other operation: "
  "parsers, encoders, builders, catalogues, matchers and commands keep what they work with in their objects and calls, not in the module, the class or the process "
  "(such as its working directory).",
  ["schedules"], "every point at which the other thread may run, and every pair of operations",
  "Tests run in one thread; scratch state that is cleaned at the start of each call works in any sequence of calls and fails only in some schedules.",
  [U + "guid_list.py", T + "gitignore_parser.py", U + "parsers/base_parser.py", T + "utility_functions.py", T + "uefi/uefi_multi_phase.py"],
  [("GUID lists", "GuidList.parse_guids_from_dec"), ("matchers", "rule_from_pattern / fnmatch_pathname_to_regex"), ("parsers", "HashFileParser.ParseStream / ParseFile"),
   ("commands", "RunCmd")],
  "All schedules of two threads with one preemption before a line of the library: all pairs of one kind of about 130 operations and a twelfth (all) of the others, and 3 (4) cases of every "
  "suite of 33 checks, each interrupted by two others; <=60 (500) points each. Each pair in a process of its own.",
  [("process", "modules, classes and settings shared by the threads")], ["results of both threads"])
P("P51", "An operation that is broken off leaves nothing behind in the process",
  "When an operation is broken off at any moment, by Ctrl-C or another exception that reaches it, the working directory, environment, module search path, log and signal settings, warnings filters and "
  "standard streams are as before, and later operations on new objects give what they give in a fresh process.",
  ["faults", "histories"], "every moment at which the exception comes, and every operation",
  "Tests let operations finish; a setting that is put back only at the regular end of a function, or a table left half changed, is not noticed.",
  [T + "utility_functions.py", U + "guid_list.py", U + "parsers/base_parser.py", T + "gitignore_parser.py", T + "uefi/edk2/variable_format.py"],
  [("modules by name", "import_module_by_file_name"), ("commands", "RunCmd / RunPythonScript"), ("matchers", "parse_gitignore_lines")],
  "An exception before every library line of about 130 operations (the first, middle and last time, <=200; thorough: every time) and <=30 (100) points of cases of every suite of 33 checks; afterwards the settings, the "
  "operation again, and others.",
  [("process", "modules, classes and settings")], ["settings", "results of later operations"])
