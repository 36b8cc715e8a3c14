#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over.split(), "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files.split(),
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(zip(("name","meaning","where"), s)) for s in state]
    P.append(d)

# ---------------------------------------------------------------- profile files
p("P01", "A profile written for GCC and read back is the same profile",
  "Any set of function profiles written to a GCC AutoFDO file and read back yields the same functions, head counts, inline trees, per-line execution counts and per-line indirect call targets, with every total equal to the sum of the line counts below it. Functions at or below the writer's count threshold are the only thing left out, and names with GCC clone-constructor spellings come back in their canonical spelling. What is read back does not depend on the order in which the profile was built.",
  "inputs configurations", "all profiles (names, offsets, discriminators, nesting, counts up to 64 bits, call targets), all supported file versions, both with and without file names and time stamps",
  "the upstream tests read three fixed profiles and never write one; the round trip must hold for every shape of inline tree and every count",
  "profile_writer.cc profile_writer.h profile_reader.cc profile_reader.h gcov.cc symbol_map.cc",
  [("file writer, one section per method", "profile_writer.cc"), ("file reader", "profile_reader.cc"), ("primitive record I/O", "gcov.cc")],
  ["file bytes", "symbol map after reading"])
p("P02", "Profiles written for GCC follow GCC's on-disk format exactly",
  "A profile file for GCC is bit for bit what an independent implementation of the format decodes: magic, version and stamp words, the tagged sections in order, section lengths that let a reader skip them, one shared string table that every name index refers to, and per function the head count, call-site list and position list with the line and discriminator packed as GCC unpacks them. Conversely, any well formed file produced by an independent encoder is read to exactly the profile it encodes.",
  "inputs configurations", "all profiles and all well formed files, every supported file version",
  "a symmetric mistake in reader and writer cancels out in any test that uses both; upstream has no independent codec",
  "profile_writer.cc profile_reader.cc gcov.cc gcov.h", [("section emitters", "profile_writer.cc"), ("section parsers", "profile_reader.cc"), ("word and counter codec", "gcov.cc")],
  ["file bytes"])
p("P03", "Coverage-file primitives return every value written, in order",
  "Words, 64-bit counters and strings written to a coverage file through the primitive record interface are read back unchanged and in the same order, however they straddle internal buffer blocks, in every file version (strings up to the 16 KiB record limit the format imposes on readers). Reading past the end yields an error indication and never invented data, and a record written by an independent encoder is decoded to the value encoded.",
  "inputs histories", "all sequences of write calls with arbitrary word, counter and string arguments, followed by the matching read calls; all file lengths",
  "the primitives have no test at all upstream; buffer-boundary behaviour depends on the exact total length of the history",
  "gcov.cc gcov.h", [("block buffer management", "gcov.cc"), ("word/counter/string codec", "gcov.cc")], ["values returned by the read calls", "file bytes"])
p("P04", "A profile that could not be written completely is reported as failed",
  "When the output file cannot be created, or the device rejects any part of the data, writing a profile reports failure to its caller; success is reported only if the complete file is on disk. This holds for every writer the tools offer.",
  "fault_sequences inputs", "all points in the output at which the file system refuses further bytes, and unwritable paths, for every output format",
  "no upstream test injects an I/O error; the failing byte can be anywhere in the output",
  "profile_writer.cc gcov.cc llvm_profile_writer.cc profile_symbol_list.cc", [("open and close error codes", "gcov.cc"), ("writer result checks", "profile_writer.cc"), ("writer result checks", "llvm_profile_writer.cc")], ["return values", "file on disk"])
p("P05", "Merging profiles adds their counts, in any order and grouping",
  "Merging any number of profiles gives, for every function, inline position, line and call target, the sum of the inputs' counts, and totals and head counts add up the same way. The result does not depend on the order or grouping of the merges, merging an empty profile changes nothing, and the inputs' functions are exactly the functions of the result.",
  "inputs histories", "all multisets of profiles and all orders and groupings of merging them",
  "upstream merges one fixed pair; commutativity and associativity quantify over all sequences",
  "symbol_map.cc symbol_map.h profile_merger.cc", [("recursive symbol merge", "symbol_map.cc"), ("count accumulation", "symbol_map.h")], ["symbol map contents"])
p("P06", "A profile written for LLVM and read back is the same profile",
  "Any set of function profiles written in any of the sample-profile encodings LLVM supports (text, binary, extensible binary, compressed or not) and read back yields the same functions, head counts, inline trees, per-location counts, discriminators and call targets, with consistent totals. Reading the file with LLVM's own reader shows the same counts.",
  "inputs configurations", "all profiles whose offsets and discriminators fit LLVM's encoding, all output formats",
  "upstream's writer test covers three tiny profiles and the reader test one file; encodings must agree for every profile",
  "llvm_profile_writer.cc llvm_profile_writer.h llvm_profile_reader.cc llvm_profile_reader.h symbol_map.cc", [("conversion to LLVM records", "llvm_profile_writer.cc"), ("conversion from LLVM records", "llvm_profile_reader.cc")], ["file contents as LLVM's reader sees them", "symbol map after reading"])
p("P07", "Sample text files keep every count and merge by addition",
  "The textual sample file written from any set of range, address and branch counts is read back to exactly the same counts, and reading several files into one reader gives the sums. The file lists sections in the documented order with one record per distinct key.",
  "inputs histories", "all range, address and branch count maps with 64-bit addresses and counts, all sequences of appended files",
  "upstream reads one fixed file and writes none",
  "sample_reader.cc sample_reader.h sample_merger.cc", [("text writer", "sample_reader.cc"), ("text reader", "sample_reader.cc"), ("append", "sample_reader.cc")], ["text file", "count maps"])
p("P08", "Folding compiler-generated name suffixes conserves every count",
  "When compiler-generated suffixes are dropped from function names, every sample of a suffixed clone is found under the base name afterwards, added to whatever the base name already had, and no other function is changed. Names whose suffixes are not compiler generated, or that the policy says to keep, stay as they are.",
  "inputs configurations", "all sets of function names with arbitrary suffix chains, all elision policies",
  "upstream checks a handful of names; collisions between several clones and their base arise only in combinations",
  "symbol_map.cc symbol_map.h", [("suffix classification", "symbol_map.cc"), ("merge of elided clones", "symbol_map.cc")], ["symbol map contents"])
p("P09", "Profile summaries match their definition on every profile",
  "The histogram-based profile summary gives, for every requested cutoff, the largest count threshold at which the counts at or above it reach that share of the total, together with how many counts that is; total, maximum and number of counts are exact. The working set computed for GCC is the same statement over its fixed 128 buckets, with thresholds never increasing as the share grows.",
  "inputs", "all multisets of line counts, including ties, zeros and counts near 2^64 boundaries allowed by the type",
  "upstream checks three fixed profiles; off-by-one errors at ties or at exact cutoffs need particular multisets",
  "symbol_map.cc symbol_map.h profile_writer.cc summary_calculation_test.cc", [("count histogram", "symbol_map.h"), ("working-set computation", "symbol_map.cc"), ("summary section", "profile_writer.cc")], ["summary values", "working-set table"])
p("P10", "Limiting or flattening a profile keeps exactly the documented part",
  "Limiting call targets keeps the hottest targets of every line in descending order with ties broken by name; scaling by a ratio scales every count; flattening replaces inline copies by stand-alone profiles so that each function's body and head counts are the sums over all the places it was inlined or called; dropping cold inline copies keeps only the hottest ones up to the limit. Nothing else in the profile changes.",
  "inputs configurations", "all profiles and all limits and ratios",
  "the transformations have at most one example each upstream",
  "symbol_map.cc symbol_map.h profile_writer.cc llvm_profile_writer.cc", [("target limiting", "symbol_map.cc"), ("flattening", "symbol_map.cc"), ("inline throttling", "symbol_map.cc"), ("ratio scaling", "symbol_map.cc")], ["symbol map contents"])
p("P11", "The profile merge tool produces the sum of its input files",
  "Running the merge tool on any list of profile files, in GCC or LLVM format, yields a profile file whose functions, line counts, head counts and call targets are the sums over the inputs, subject only to the documented size and threshold options; for GCC files the count thresholds of the working sets add up too, and their sizes stay between those of the inputs. Merging a single file reproduces it, and the order of the input files does not matter to the counts.",
  "inputs configurations", "all lists of input profiles, both output families, all relevant options",
  "the tool has no test upstream",
  "profile_merger.cc profile_reader.cc profile_writer.cc llvm_profile_reader.cc llvm_profile_writer.cc", [("merge driver", "profile_merger.cc")], ["output file", "exit status"])
p("P12", "The symbol list of a profile names the unsampled code of the requested share",
  "The list of known symbols attached to an LLVM profile is drawn from the functions of the binary that do not occur in the profile in any role (sampled, inlined, or called) and holds, under their canonical names, exactly those that are at least as large as the smallest function needed for the largest ones to reach the requested share of their total size: nothing for share 0, everything of nonzero size for share 1, equally large functions together or not at all, and nothing when the largest function alone exceeds the share. Lists survive writing and reading, compressed or not, and merging unites them.",
  "inputs configurations", "all sets of symbols with arbitrary addresses and sizes, all sample sets and coverage ratios",
  "upstream tests one list of four symbols",
  "profile_symbol_list.cc profile_symbol_list.h symbol_map.cc create_llvm_prof.cc llvm_profile_writer.cc", [("list filling", "profile_symbol_list.cc"), ("address and size map", "symbol_map.cc")], ["symbol list in the profile"])
p("P13", "Overlap between two profiles is a symmetric similarity",
  "The overlap of two profiles lies between 0 and 1, is the same in either order, is 1 for a profile with itself or any positive multiple of itself, 0 for profiles with no counted function in common, and otherwise equals the sum over functions of the smaller of their two shares of the profile's total.",
  "inputs", "all pairs of profiles, nested inline trees included",
  "the overlap computation has no upstream test",
  "symbol_map.cc symbol_map.h profile_diff.cc", [("overlap computation", "symbol_map.cc")], ["reported overlap"])

# ---------------------------------------------------------------- samples to profile
p("P14", "Branch samples are turned into the right range, branch and address counts",
  "Reading a recorded branch trace counts every valid taken branch of the focused binary once per occurrence, every straight-line range between two consecutive branches once, and every sampled address once, all as binary addresses; entries the hardware marks as wrong-path, entries followed by a range that runs backwards or is implausibly long, duplicated top entries and events of other binaries contribute nothing. The counts from several files are the sums of the single-file counts.",
  "inputs histories", "all sequences of memory-map and sample events with arbitrary branch stacks, addresses, processes and build ids",
  "upstream checks one recorded file; the filters interact with each other and with the mapping history",
  "sample_reader.cc sample_reader.h", [("branch stack walk", "sample_reader.cc"), ("build-id focus", "sample_reader.cc")], ["range, branch and address counts"])
p("P15", "Line profiles are exactly what the sampled ranges and branches imply",
  "Given a program's instruction-to-source mapping, the profile built from any sample set gives each source position the documented combination of its instructions' counts, each function the head count of branches entering it, and each call position the count of every observed callee. Samples outside known functions change nothing else, and the same samples in any order or split give the same profile.",
  "inputs programs", "all sample sets over all function layouts and instruction-to-source mappings",
  "upstream has no test of the conversion; it needs a reference computation over arbitrary overlapping ranges",
  "profile.cc profile.h instruction_map.cc instruction_map.h symbol_map.cc", [("range to instruction counts", "profile.cc"), ("instruction map", "instruction_map.cc"), ("count propagation", "symbol_map.cc")], ["symbol map contents"])
p("P16", "Every instruction of a sampled function is attributed to its inline stack",
  "The instruction map built for a function covers every address of the function exactly once and gives each the source stack the symbolizer reports for it; building maps for several functions never changes earlier ones, and source stacks carry line offsets relative to the containing function's start line with discriminators preserved.",
  "inputs programs", "all function extents and all symbolizer answers, in any sequence of build calls",
  "upstream's test fixes one function with a mock of one address",
  "instruction_map.cc instruction_map.h source_info.cc source_info.h addr2line.h", [("map construction", "instruction_map.cc"), ("offset and discriminator encoding", "source_info.h")], ["lookups in the map"])
p("P17", "Function symbols of a binary are found by address, name and alias",
  "For every binary, each code address inside a function symbol resolves to that function's name and extent and every other address resolves to none; functions sharing an address are aliases of one entry, and linkage stubs are not functions. Addresses convert between file offset and virtual address without loss for every mapped code byte.",
  "programs inputs", "all symbol tables (overlaps, zero sizes, aliases, local symbols) and all segment layouts, all query addresses",
  "upstream queries a few addresses of one binary",
  "symbol_map.cc symbol_map.h util/symbolize/elf_reader.cc", [("symbol collection", "symbol_map.cc"), ("address index", "symbol_map.h"), ("segment translation", "symbol_map.cc")], ["lookup results"])
p("P18", "Hardware event trace records are attributed to the right process",
  "A statistical-profiling trace record is attributed to the process that owned its thread at the record's time, as given by the latest event of that thread at or before that time, in whatever order the events were recorded; a thread without such an event stands for itself, and with an invalid thread context the single known process is used and otherwise none. Converting the trace clock to wall time follows the kernel's published formula.",
  "inputs histories", "all histories of process events and all query times and thread ids",
  "upstream uses one history",
  "spe_tid_pid_provider.cc spe_tid_pid_provider.h spe_pid_provider.h spe_sample_reader.cc", [("per-thread timeline", "spe_tid_pid_provider.cc"), ("clock conversion", "spe_sample_reader.cc")], ["process id answered"])
p("P19", "Branch frequencies are turned into equivalent straight-line range counts",
  "Converting taken and not-taken branch frequencies to profile samples keeps every branch count between known addresses, and the produced ranges cover exactly the code that executes after each branch target up to the next control transfer, weighted by the flow that reaches it. No range crosses an instruction that may change control flow except with its not-taken count. The sample reader for Arm branch recordings gives these counts for programs and kernel images, added up over the recordings it reads, and takes only records of the profiled binary.",
  "inputs programs", "all branch frequency maps over all instruction layouts",
  "upstream covers four fixed maps",
  "branch_frequencies_autofdo_sample.cc branch_frequencies_autofdo_sample.h", [("incoming weight map", "branch_frequencies_autofdo_sample.cc"), ("range scan", "branch_frequencies_autofdo_sample.cc")], ["sample reader contents"])

# ---------------------------------------------------------------- symbolization
p("P20", "Binary debug-data integers decode to the values they encode",
  "Fixed-width integers of every width in either byte order, variable-length signed and unsigned integers of every length, addresses, offsets and encoded initial lengths are decoded to exactly the value an independent encoder wrote, consuming exactly the bytes it produced.",
  "inputs", "all values, widths, byte orders and redundant encodings up to ten bytes",
  "no upstream test covers the decoders",
  "util/symbolize/bytereader.cc util/symbolize/bytereader.h util/symbolize/bytereader-inl.h", [("integer decoders", "util/symbolize/bytereader-inl.h")], ["decoded values and lengths"])
p("P21", "Address range tables answer with the innermost recorded range",
  "After any sequence of insertions of nested or disjoint address ranges, inside out or by splitting larger ranges, looking up an address returns the value of the innermost inserted range containing it and nothing for addresses in no range, whichever of these orders was used. Iterating yields disjoint ascending ranges that cover exactly the inserted addresses.",
  "inputs histories", "all families of nested or disjoint ranges in every inside-out or splitting insertion order, all query addresses",
  "the container has no test upstream and its splitting logic depends on the order of insertions",
  "util/symbolize/nonoverlapping_range_map.h", [("range splitting on insert", "util/symbolize/nonoverlapping_range_map.h")], ["lookup results", "iteration"])
p("P22", "Debug range lists decode to exactly the ranges they encode",
  "A range list in the pre-DWARF-5 or DWARF-5 form, in either byte order and address size, with any mixture of base-address selections and entry kinds, decodes to exactly the list of non-empty address ranges it encodes, and decoding stops at its terminator.",
  "inputs", "all well formed range lists of both generations",
  "no upstream test reads a range list in isolation; most entry kinds never occur in the one test binary",
  "util/symbolize/dwarf3ranges.cc util/symbolize/dwarf3ranges.h", [("entry decoders", "util/symbolize/dwarf3ranges.cc")], ["decoded range list"])
p("P23", "Line-number programs produce exactly the rows they encode",
  "Executing any well formed line-number program of DWARF versions 2 to 5 reports exactly the rows (address, file, line, column, discriminator, end of sequence) an independent interpreter computes, and exactly the directories and files of the header.",
  "inputs programs", "all well formed line programs: every opcode, header parameter, version, byte order and address size",
  "the one test binary contains the few opcodes GCC emits; no expected rows are checked",
  "util/symbolize/dwarf2reader.cc util/symbolize/dwarf2reader.h util/symbolize/line_state_machine.h", [("header reader", "util/symbolize/dwarf2reader.cc"), ("opcode interpreter", "util/symbolize/dwarf2reader.cc")], ["rows delivered to the consumer"])
p("P24", "Debug-info trees are delivered with every attribute value intact",
  "Walking the debug information of any well formed compilation unit of DWARF versions 2 to 5 visits every entry once in tree order with its tag, and delivers each attribute with the value an independent encoder stored, for every attribute form (abbreviation codes numbered from 1; compile, skeleton and split-compile units; no supplementary-file forms, no 16-byte data form); skipped subtrees and skipped attributes never disturb what follows.",
  "inputs programs", "all well formed units over all attribute forms, versions, byte orders, offset and address sizes",
  "one test binary exercises a small subset of forms and no values are compared",
  "util/symbolize/dwarf2reader.cc util/symbolize/dwarf2reader.h", [("abbreviation table", "util/symbolize/dwarf2reader.cc"), ("form decoding and skipping", "util/symbolize/dwarf2reader.cc")], ["events delivered to the consumer"])
p("P25", "Inline stacks used for GCC profiles are exactly those of the debug information",
  "For every code address of a program whose DWARF 2 to 5 debug information is in the binary, the symbolizer used for GCC profiles reports the chain of inlined functions, innermost first, with the linkage names, source directories and files, line numbers, discriminators and function start lines the debug information records (where only line tables are present, the directory, file, line and discriminator of each address); addresses without line information, or outside the program's code, have an empty stack. Code ranges of functions the linker discarded explain no address.",
  "programs inputs", "all programs compiled by the installed compilers at all optimisation levels and debug-info versions, and all unit layouts, range encodings and attribute forms such compilers emit; all code addresses in them",
  "the only stable upstream test checks that one binary opens; no stack is compared",
  "legacy_addr2line.cc util/symbolize/addr2line_inlinestack.cc util/symbolize/functioninfo.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc", [("inline tree walk", "util/symbolize/addr2line_inlinestack.cc"), ("line table lookup", "legacy_addr2line.cc")], ["source stack returned for an address"])
p("P46", "Inline stacks used for LLVM profiles are exactly those of the debug information",
  "For every code address of a program whose DWARF 3 to 5 debug information is in the binary, the symbolizer used for LLVM profiles reports the chain of inlined functions, innermost first, with linkage names, source directories and files, line numbers, discriminators and function start lines the debug information records; addresses in no compilation unit have an empty stack. For kernel modules this holds for the addresses of the .text section, although every section starts at address 0.",
  "programs inputs", "all programs compiled by the installed compilers and all unit layouts they emit; all code addresses",
  "the upstream tests need an LLVM build that is not available here and compare a handful of addresses in prebuilt binaries",
  "addr2line.cc addr2line.h source_info.h", [("use of the LLVM symbolizer", "addr2line.cc")], ["source stack returned for an address"])
p("P26", "ELF files are described exactly as their headers say",
  "For every well formed 32- or 64-bit object of the host's byte order, section contents by name, section addresses, loadable segments, symbols with binding, type, address and size, the build id and the first loadable address reported equal what the headers encode; files that are not ELF, or of another byte order, are refused without a crash.",
  "inputs programs", "all well formed ELF images and all byte strings that are not ELF images",
  "upstream opens one x86-64 binary; other classes, byte orders and note layouts are never read",
  "util/symbolize/elf_reader.cc util/symbolize/elf_reader.h", [("header and section parsing", "util/symbolize/elf_reader.cc"), ("note parsing", "util/symbolize/elf_reader.cc")], ["query results"])
p("P27", "Addresses map to the name of their compilation unit",
  "For every binary with debug information, a code address inside a compilation unit maps to that unit's name, an address in none is reported as not found, and binaries whose debug information is missing or split off are refused with an error instead of a wrong answer.",
  "programs inputs", "all programs of several units, all code addresses",
  "upstream queries three addresses",
  "addr2cu.cc addr2cu.h", [("unit lookup", "addr2cu.cc"), ("debug context checks", "addr2cu.cc")], ["status and name returned"])

# ---------------------------------------------------------------- propeller
p("P28", "Binaries are loaded with the right identity and code segments",
  "Opening a binary reports its build id, whether it is position independent, and exactly its executable loadable segments (or, for a kernel module, its code section and its module information records) as the headers encode them; files that are not supported binaries, and malformed module information, are refused with an error.",
  "inputs programs", "all ELF images of both classes and byte orders, all module-information contents, arbitrary other files",
  "upstream opens three fixed binaries",
  "llvm_propeller_binary_content.cc llvm_propeller_binary_content.h", [("header and note reading", "llvm_propeller_binary_content.cc"), ("module information parser", "llvm_propeller_binary_content.cc")], ["binary description"])
p("P29", "Code addresses map to the basic block that contains them",
  "For any basic-block address map, an address maps to the block of a selected function containing it, resolving empty blocks by branch direction as documented, and to nothing outside; selection keeps exactly the sampled, named, unambiguous functions of code sections. Two blocks are connected by fall-through only if every block between them in the same function can fall through.",
  "programs inputs", "all block maps (empty blocks, adjacent functions, duplicate names, several sections), all addresses and address sets",
  "upstream asks about a few addresses of fixed binaries",
  "llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_address_mapper.h bb_handle.h", [("binary search with empty-block rules", "llvm_propeller_binary_address_mapper.cc"), ("function selection", "llvm_propeller_binary_address_mapper.cc")], ["lookup results", "selected functions"])
p("P30", "Recorded addresses translate to the right binary addresses",
  "From any recorded set of memory mappings, exactly those of the profiled binary are used, chosen by build id or by name as configured, and each run-time address inside one translates to the address the binary itself assigns to that byte, for position-dependent, position-independent and kernel code; addresses outside, or of other processes, translate to nothing and conflicting mappings are an error.",
  "inputs histories configurations", "all mapping sets over processes, all binaries' segment layouts, all run-time addresses",
  "upstream uses fixed recordings of four binaries",
  "perfdata_reader.cc perfdata_reader.h", [("mapping selection", "perfdata_reader.cc"), ("address translation", "perfdata_reader.cc")], ["selected mappings", "translated addresses"])
p("P31", "Branch records aggregate into exact branch and fall-through counts",
  "Aggregating recorded branch stacks counts each branch with at least one end in the binary once per occurrence and each fall-through between consecutive branches of one stack once, oldest to newest, with ends outside the binary marked as unknown; the sum over any set of recordings is the sum of the parts, unreadable recordings are skipped, and only if none is readable is an error returned.",
  "inputs histories", "all event sequences, all splits over recordings, all reading faults",
  "upstream compares one recording's total",
  "perfdata_reader.cc llvm_propeller_perf_lbr_aggregator.cc lbr_aggregation.h llvm_propeller_perf_branch_frequencies_aggregator.cc llvm_propeller_file_perf_data_provider.cc", [("stack walk", "perfdata_reader.cc"), ("multi-file loop", "llvm_propeller_perf_lbr_aggregator.cc"), ("file provider", "llvm_propeller_file_perf_data_provider.cc")], ["aggregated counters", "statistics"])
p("P32", "Branch aggregations report exact totals and endpoints",
  "For every aggregation of branches and fall-throughs, the reported number of branch events is the exact sum of all counts even when it exceeds 32 bits, the reported addresses are exactly the endpoints that occur, and passing through the aggregation pipeline changes no count. The underlying data is read at most once however often and in whatever order results are requested.",
  "inputs histories", "all counter maps with 64-bit counts, all orders and numbers of requests",
  "upstream uses maps of two or three small counters",
  "branch_aggregation.cc branch_aggregation.h lbr_aggregation.h lbr_branch_aggregator.cc branch_frequencies.h lazy_evaluator.h", [("accumulation", "branch_aggregation.cc"), ("lazy evaluation", "lazy_evaluator.h")], ["totals", "address sets", "number of reads"])
p("P33", "Fall-throughs inferred from branch frequencies conserve block flow",
  "When only branch frequencies are known, taken branches are kept unchanged and a fall-through is inferred between consecutive blocks only where the code can fall through, with weight equal to what enters the block minus what leaves it by taken branches, or the measured not-taken count where there is one, never negative.",
  "inputs programs", "all branch frequency maps over all block layouts, fixed- and variable-length instruction sets",
  "the inference has no upstream test",
  "frequencies_branch_aggregator.cc frequencies_branch_aggregator.h branch_frequencies.h", [("block weight propagation", "frequencies_branch_aggregator.cc")], ["aggregated branch and fall-through counters"])
p("P34", "Control-flow graphs carry exactly the aggregated branch weights",
  "The control-flow graphs built from aggregated branches contain exactly the functions that received samples, their blocks as the binary describes them, and edges whose weights are the sums of the branch and fall-through counts between their blocks, classified as branch, call or return by the documented rules. Profiles with too many unexplained branches are refused.",
  "inputs programs", "all aggregations over all block maps",
  "upstream checks one small binary",
  "llvm_propeller_program_cfg_builder.cc llvm_propeller_program_cfg_builder.h llvm_propeller_program_cfg.cc", [("edge creation", "llvm_propeller_program_cfg_builder.cc"), ("edge classification", "llvm_propeller_binary_address_mapper.h")], ["graph contents", "statistics", "status"])
p("P35", "Block frequencies and graph copies follow from the edges alone",
  "A block's frequency is the largest of its total incoming flow, total outgoing flow, heaviest call and heaviest return; frequency percentiles, join-block queries and hot-function decisions follow that definition for every graph. Copying a graph reproduces its blocks and internal edges and leaves the original untouched, and cloning a path adds exactly one copy of each block on it.",
  "inputs histories", "all graphs and all sequences of edge insertions, updates and path clonings",
  "upstream covers a few hand-made graphs",
  "llvm_propeller_cfg.cc llvm_propeller_cfg.h llvm_propeller_program_cfg.cc llvm_propeller_program_cfg.h", [("frequency computation", "llvm_propeller_cfg.cc"), ("path cloning", "llvm_propeller_cfg.h"), ("percentile", "llvm_propeller_program_cfg.cc")], ["frequencies", "thresholds", "graph contents"])
p("P36", "The stored form of a program graph loses nothing it records",
  "Saving any program's control-flow graphs and loading the file again gives the same functions, names, sections, blocks with their ids, sizes and recorded properties, and internal edges with kinds and weights.",
  "inputs", "all sets of graphs without cloned blocks",
  "upstream round-trips one binary's graphs only indirectly",
  "llvm_propeller_program_cfg_proto_builder.cc llvm_propeller_program_cfg_proto_builder.h llvm_propeller_cfg.proto", [("conversion to messages", "llvm_propeller_program_cfg_proto_builder.cc")], ["file contents"])
p("P37", "Every computed layout is a valid placement of the hot blocks",
  "For all graphs and layout options, the computed layout places every hot block exactly once and no unknown block, keeps the layout positions a gapless permutation, and contains cold blocks only when function splitting is off. Without cross-function reordering each function is one contiguous part that starts with its entry; with it, the entry, when placed, begins a part.",
  "inputs configurations", "all program graphs (empty blocks, loops, landing pads, clones, several sections) and all combinations of layout options",
  "upstream checks chosen graphs; a misplaced block shows only for particular graph shapes and options",
  "llvm_propeller_code_layout.cc llvm_propeller_node_chain_builder.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_assembly.cc llvm_propeller_chain_cluster_builder.cc", [("chain building", "llvm_propeller_node_chain_builder.cc"), ("cluster ordering", "llvm_propeller_chain_cluster_builder.cc"), ("layout extraction", "llvm_propeller_code_layout.cc")], ["cluster lists"])
p("P38", "Layout scores are exact and every merge step improves the score",
  "The score gain predicted for joining two chains of blocks equals the difference between the recomputed scores after and before the join, for every way of splitting and joining; the builder joins only with positive predicted gain and picks the best available join; blocks joined by the only hot edge out of one and into the other are kept adjacent (cycles are cut at their lowest block); and the original and optimised scores reported for a function equal an independent evaluation of the published scoring formula on the corresponding layouts.",
  "inputs configurations", "all graphs, chain pairs, split positions and scoring parameters",
  "upstream asserts scores of a few fixed examples; incremental bookkeeping errors need particular sequences of joins",
  "llvm_propeller_node_chain_assembly.cc llvm_propeller_node_chain.cc llvm_propeller_node_chain_builder.cc llvm_propeller_code_layout_scorer.cc llvm_propeller_code_layout.cc", [("gain computation", "llvm_propeller_node_chain_assembly.cc"), ("incremental chain score", "llvm_propeller_node_chain.cc"), ("scoring formula", "llvm_propeller_code_layout_scorer.cc")], ["scores", "gains"])
p("P39", "The same input always yields the same output",
  "Profiles, layouts and every written file are functions of the inputs alone: repeating a computation, inserting the same facts in another order, or changing the internal ordering of hashed collections changes no byte of the results.",
  "inputs schedules configurations", "all inputs, all insertion orders, all iteration orders of hashed collections",
  "a test runs one iteration order; order dependence shows only under another one",
  "llvm_propeller_code_layout.cc llvm_propeller_node_chain_builder.cc llvm_propeller_chain_cluster_builder.cc symbol_map.cc profile_writer.cc llvm_propeller_profile_writer.cc branch_frequencies_autofdo_sample.cc", [("total tie-breaking orders", "llvm_propeller_node_chain_assembly.cc"), ("sorted output", "llvm_propeller_code_layout.cc")], ["output bytes"])
p("P40", "Layout files say exactly what the computed layout is",
  "The block-order file and the symbol-order file written for any layout, in every encoding version, parse back to exactly the computed parts, block ids, clone paths, function names and module names; the symbol-order file lists each part once in layout position order and each split function's cold part once after them. The verbose annotations and the optional graph dump state the graphs and the layout as they are, and success is reported only if both files were written completely.",
  "inputs configurations fault_sequences", "all layouts, name sets, clone paths and option combinations, all points of failing writes",
  "upstream greps fixed outputs",
  "llvm_propeller_profile_writer.cc llvm_propeller_profile_writer.h", [("file emission", "llvm_propeller_profile_writer.cc")], ["output files"])
p("P41", "Profile generation accepts exactly the supported input combinations",
  "A profile generation request is carried out only if it names at least one input profile through the supported option and all inputs are of one supported kind, with unspecified meaning hardware branch records; every other combination is refused with an invalid-argument error before anything is written. Option values set through the builder are exactly those found in the request and nothing else changes.",
  "configurations", "all combinations of option values, input kinds and orders of builder calls",
  "upstream tries a few combinations",
  "llvm_propeller_profile_generator.cc llvm_propeller_options_builder.cc llvm_propeller_options_builder.h llvm_propeller_profile_computer.cc", [("input validation", "llvm_propeller_profile_generator.cc"), ("builder setters", "llvm_propeller_options_builder.cc")], ["status", "request message"])
p("P42", "Progress reports are exact, bounded and end at done",
  "The overall progress of any tree of weighted tasks equals the weighted share of finished work in task order, stays between 0 and 100, is 100 exactly when all tasks are done, and names the first unfinished task; observers are started and stopped in registration order, each exactly once per call.",
  "histories inputs", "all trees of tasks and weights, all sequences of progress, completion and registration calls",
  "progress tracking has no upstream test",
  "status_provider.cc status_provider.h status_consumer_registry.cc status_consumer_registry.h", [("weighted sum", "status_provider.cc"), ("registry", "status_consumer_registry.cc")], ["progress value", "task name", "observer calls"])
p("P43", "Statistics and number formats are exact",
  "Adding up statistics from any number of parts equals the statistics of the whole, derived ratios follow their definitions, numbers are printed with separators every three digits, and addresses in hexadecimal, so that removing separators gives back the number.",
  "inputs", "all 64-bit numbers, all sequences of partial statistics",
  "upstream formats two numbers",
  "llvm_propeller_statistics.cc llvm_propeller_statistics.h llvm_propeller_formatting.cc llvm_propeller_formatting.h", [("accumulation", "llvm_propeller_statistics.h"), ("formatters", "llvm_propeller_formatting.cc")], ["formatted text", "statistics fields"])
p("P44", "Inclusive counts add every callee's share exactly along the call graph",
  "The inclusive count of every function is its own total plus, for each call (in its own lines or those of bodies inlined into it) to a function outside its cycle of mutual recursion, the callee's inclusive count per entry times the number of calls; functions of one cycle share the sum of theirs, and every inlined body gets the same for its own part. The computation ends without aborting for every call graph.",
  "inputs", "all call graphs, including cycles and self calls, with 64-bit counts",
  "upstream checks one small call graph",
  "symbol_map.cc symbol_map.h", [("strongly connected components", "symbol_map.cc"), ("inclusive totals", "symbol_map.cc")], ["inclusive counts"])
p("P45", "Branch sources are checked against the code they come from",
  "Every distinct sampled branch source is classified, with its full weight, as an instruction that may change control flow, one that cannot, or an address that cannot be decoded, in agreement with an independent disassembler, for every code section content.",
  "inputs programs", "all code bytes and all sets of source addresses",
  "upstream disassembles a few fixed instructions",
  "mini_disassembler.cc mini_disassembler.h llvm_propeller_perf_lbr_aggregator.cc", [("single-instruction disassembly", "mini_disassembler.cc"), ("weight classification", "llvm_propeller_perf_lbr_aggregator.cc")], ["classification counters"])

p("P47", "Hot chains follow their best caller by call-chain clustering",
  "With call-chain clustering, chains are considered in falling order of the calls they receive within their section; each one joins the cluster of its most frequent caller unless its own density is too low, no call into it makes up a tenth of its frequency, the joined cluster would exceed the size limit, or the caller's cluster would fall below an eighth of its density; the clusters are laid out by falling density, every chain exactly once and the chains of one cluster together, whatever the sizes and frequencies. Without call-chain clustering the chains keep their order.",
  "inputs programs", "all sets of chains with call edges between their blocks",
  "upstream clusters two small call graphs",
  "llvm_propeller_chain_cluster_builder.cc llvm_propeller_chain_cluster_builder.h llvm_propeller_code_layout.cc", [("merge conditions and order", "llvm_propeller_chain_cluster_builder.cc"), ("global order", "llvm_propeller_code_layout.cc")], ["clusters", "order of chains"])
p("P48", "The GCC profile tool writes what the samples and debug data imply",
  "create_gcov, given a binary and a sample file, writes a coverage file whose functions, inlined copies, lines, discriminators, counts, call targets and entry counts are those implied by the samples together with the binary's symbols and debug information, leaving out exactly the functions at or below the threshold; it exits with success only then, and with failure, writing no profile, for samples or binaries it cannot read, unknown profilers and outputs it cannot create.",
  "inputs programs", "all binaries with DWARF 2 to 5, all text sample files, all thresholds, suffix policies and format versions",
  "upstream has no test of the tool from end to end",
  "create_gcov.cc profile_creator.cc profile.cc profile_writer.cc legacy_addr2line.cc symbol_map.cc", [("tool flags and exit codes", "create_gcov.cc"), ("reading, computing, writing", "profile_creator.cc")], ["coverage file", "exit code"])
p("P49", "The LLVM profile tool writes what the samples and flags imply",
  "create_llvm_prof, given a binary and a sample file, writes in every format a profile that LLVM's own reader reads back as exactly the functions, inlined copies, lines, base discriminators, counts scaled by duplication factors, totals, call targets and symbol list implied by the samples and the debug information; given prefetch hints, every hint is attached as one numbered target to the position of its address; for layouts, the request equals the flags; contradictory or unsupported flags and unreadable inputs are refused without writing anything.",
  "inputs programs", "all binaries, sample files, hint files and flag combinations",
  "upstream has no test of the tool from end to end",
  "create_llvm_prof.cc profile_creator.cc profile.cc llvm_profile_writer.cc addr2line.cc symbol_map.cc profile_symbol_list.cc", [("tool flags and exit codes", "create_llvm_prof.cc"), ("reading, computing, writing, hints", "profile_creator.cc"), ("conversion to LLVM's form", "llvm_profile_writer.cc")], ["profile as read by LLVM", "layout request", "exit code"])

p("P50", "Samples are selected for exactly the binary asked for and merged by addition",
  "From a recording, the profile creator takes exactly the samples of files matching the given expression, else of files whose build identification equals the binary's (padded to 20 bytes), else of files with the binary's base name taken literally; sample_merger writes the sum of the counts of all its inputs and of the existing output, whatever their order, and on any input it cannot read fails and leaves the existing output untouched.",
  "inputs histories", "all recordings, names and identifications of binaries, and lists of inputs",
  "upstream merges two small files",
  "profile_creator.cc sample_merger.cc sample_reader.cc", [("binary selection", "profile_creator.cc"), ("merge tool", "sample_merger.cc")], ["selected counts", "merged file", "exit code"])

p("P51", "Dumps of profiles show exactly what the profile contains",
  "dump_gcov, the analysis dump and the debug dump of a profile print every function with samples once, ordered by falling total, with its head and total counts (and timestamp or inclusive totals where asked), every line and inlined copy once in order of its position with its count, and every call target with its count from the most to the least frequent; names are demangled exactly when asked and possible; a profile that cannot be read makes the tool fail.",
  "inputs", "all profiles of every format version, all flags",
  "upstream tests no dump",
  "dump_gcov.cc symbol_map.cc profile_writer.cc profile_reader.cc", [("tool", "dump_gcov.cc"), ("symbol dump", "symbol_map.cc"), ("analysis dump", "profile_writer.cc")], ["printed text", "exit code"])
p("P52", "Arm trace records become exact branch and instruction counts (GCC tool)",
  "From a recording with Arm SPE data, the GCC tool's reader counts every retired branch record that lies in the first mapping with the binary's base name: a conditional branch not taken adds to the count of its address, a taken one to its branch; instruction counts follow from where branches went until the next place a branch went to, at most 0x1000 bytes on, passing a branch as often as it was seen not taken; the totals equal the sums of these counts also when recordings are appended; recordings without mapping, trace or samples are refused.",
  "inputs histories", "all streams of records, mappings and appended recordings",
  "upstream has no test of this reader",
  "simple_spe_sample_reader.cc simple_spe_sample_reader.h sample_reader.cc", [("trace to counts", "simple_spe_sample_reader.cc"), ("totals", "sample_reader.cc")], ["address, branch and range counts", "total"])
p("P53", "Split debug information symbolizes like debug information in the binary",
  "For a binary whose debug information was split into object files (DWARF 4 and 5), a package of them, or files and a package of the rest (DWARF 4), the inline stack reported for every address equals the one a standard symbolizer reports: functions, source directories and files, lines, discriminators and start lines of every frame, whatever the number of units, their compilers and their address ranges.",
  "inputs programs", "all programs built by GCC or clang with split debug information",
  "upstream tests two small binaries",
  "util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/addr2line_inlinestack.cc legacy_addr2line.cc", [("split units and packages", "util/symbolize/dwarf2reader.cc"), ("per-unit state", "util/symbolize/addr2line_inlinestack.cc")], ["inline stack per address"])

p("P54", "A function's entry count is the count at its earliest source position",
  "The entry count of a function or inline copy is the count of its earliest recorded line or, where an inlined call comes strictly before every line, the entry count of the inlined callee, and zero when nothing is recorded before line 10000; estimating a head count leaves a known one alone and otherwise takes the count of the earliest line, or the (estimated) head count of the callee inlined strictly before it; nothing else in the profile changes.",
  "inputs", "all trees of lines and inlined calls, positions equal, adjacent and far apart",
  "upstream tests two fixed trees",
  "symbol_map.cc symbol_map.h", [("entry count", "symbol_map.cc"), ("estimated head count used by flattening", "symbol_map.cc")], ["Symbol::EntryCount", "Symbol::EstimateHeadCount"])

p("P55", "A profile cut short is refused, not read as a complete one",
  "Reading a GCC profile, or a text sample file, of which only a beginning exists never reports success: whatever the byte at which the file ends, the reader reports the failure (or stops the program), while the whole file is accepted.",
  "inputs and faults", "all profiles the GCC writer produces in its versions, all text sample files, every cut point before the end",
  "no upstream test reads a damaged file",
  "gcov.cc profile_reader.cc sample_reader.cc", [("early end while reading", "gcov.cc"), ("reading the sections", "profile_reader.cc"), ("text records", "sample_reader.cc")], ["AutoFDOProfileReader::ReadFromFile", "TextSampleReaderWriter::Append"])

p("P56", "The layout tool's files follow end to end from binary and branch data",
  "For every binary with block maps and every set of recordings of it, the files written by one layout request name exactly the functions with sampled edges, with every executed block of theirs placed once, under the section, source module, block ids, frequencies and edge weights that the binary and the recordings determine, laid out by the options of the request. The request succeeds exactly if a recording is usable, its branches are explained by the binary, requested modules can be told and both files are written completely; the statistics reported, once, on success are those of the run, and observers see it end, as done only on success.",
  "inputs programs configurations fault_sequences", "all binaries with block maps, all recordings and sets of them, all option combinations, all unwritable outputs",
  "upstream runs a few stored binaries and recordings; a step that loses part of what the one before it found shows only when both are checked together",
  "llvm_propeller_profile_generator.cc llvm_propeller_profile_computer.cc lbr_branch_aggregator.cc llvm_propeller_program_cfg_builder.cc llvm_propeller_profile_writer.cc", [("steps of a request", "llvm_propeller_profile_generator.cc"), ("graphs and layout", "llvm_propeller_profile_computer.cc"), ("module names", "llvm_propeller_program_cfg_builder.cc")], ["layout files", "status", "reported statistics", "progress at the end"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
