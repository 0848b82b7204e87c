"""Per-property configuration of the checks."""

A2L = 'CPPTRACE_ADDR2LINE_PATH="/usr/bin/addr2line"'
NO_A2L = 'CPPTRACE_ADDR2LINE_PATH="/nonexistent/addr2line"'

CHECKS = {
    "P23": {"level": "proof", "note": "every helper instantiated for the integer types used; std::upper_bound is a trusted contract", "harness": [{"src": "P23.cpp", "secs": 4}]},
    "P03": {"level": "proof", "note": "std::string/std::find operations are trusted contracts", "harness": [{"src": "P03.cpp", "secs": 6}]},
    "P05": {"level": "proof", "note": "every nullable width and sign; std::string comparison is a trusted contract", "harness": [{"src": "P05.cpp", "secs": 5}]},
    "P06": {"level": "proof", "note": "contained copies and moves are assumed not to throw", "harness": [{"src": "P06.cpp", "secs": 5}],
            "assumptions": ["copying and moving the contained type does not throw"]},
    "P13": {"level": "proof", "note": 'std::list and std::unordered_map are trusted contracts over the recency list', "harness": [{"src": "P13.cpp", "secs": 5}]},
    "P04": {"level": "proof", "note": 'in the quick tier the placeholder parser is used by its contract, which the thorough tier discharges; std::to_string, std::copy and std::fill_n are trusted contracts', "harness": [{"src": "P04.cpp", "secs": 6}]},
    "P19": {"level": "proof", "note": '__cxa_demangle is an arbitrary function returning a fresh heap string or null', "harness": [{"src": "P19.cpp", "secs": 6, "exclude": ["demangle/demangle_with_cxxabi.cpp"]}]},
    "P20": {"level": "proof", "note": 'std::function and std::atomic are trusted contracts; concurrency is out of scope', "harness": [{"src": "P20.cpp", "secs": 5}]},
    "P21": {"level": "proof", "note": 'the stream extractors and std::upper_bound are trusted contracts over an arbitrary sequence of map lines', "harness": [{"src": "P21.cpp", "secs": 6, "exclude": ["platform/memory_mapping.cpp"]}]},
    "P22": {"level": "proof", "note": '_dl_find_object and readlink are arbitrary functions meeting their documentation', "harness": [{"src": "P22.cpp", "secs": 5, "exclude": ["binary/safe_dl.cpp"]}]},
    "P14": {"level": "proof", "note": 'each frame count is over an arbitrary stack of up to 2^30 frames; _Unwind_Backtrace is the loop of the ABI document, the libunwind cursor and backtrace() are trusted contracts; skips of 2^64-16 and more are a known finding', "harness": [
            {"src": "P14.cpp", "secs": 5, "exclude": ["unwind/unwind_with_unwind.cpp"], "drop": [A2L], "defs": [NO_A2L]},
            {"src": "P14.cpp", "tag": "-libunwind", "secs": 5, "exclude": ["unwind/unwind_with_libunwind.cpp"], "drop": [A2L, "CPPTRACE_UNWIND_WITH_UNWIND"], "defs": [NO_A2L, "CPPTRACE_UNWIND_WITH_LIBUNWIND"], "link": ["-lunwind", "-lunwind-x86_64"]},
            {"src": "P14.cpp", "tag": "-execinfo", "secs": 5, "exclude": ["unwind/unwind_with_execinfo.cpp"], "drop": [A2L, "CPPTRACE_UNWIND_WITH_UNWIND"], "defs": [NO_A2L, "CPPTRACE_UNWIND_WITH_EXECINFO"], "san": ["-fsanitize=undefined", "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]}],
            "assumptions": ["functions marked CPPTRACE_FORCE_NO_INLINE are frames of their own", "the stack is shallower than 2^30 frames"]},
    "P12": {"level": "proof", "note": 'std::upper_bound, vector::insert, vector::erase and std::remove_if are trusted contracts; code ranges of live objects are assumed not to overlap', "harness": [{"src": "P12.cpp", "secs": 6}]},
    "P10": {"level": "proof", "note": "arbitrary images below 2^40 bytes over which reads succeed or fail at will; std::string/vector/unordered_map operations, fseek/fread/fopen, std::sort and std::upper_bound are trusted contracts; open_elf_cached is covered by the executable contract only", "harness": [{"src": "P10.cpp", "secs": 8}]},
    "P11": {"level": "proof", "note": "arbitrary images below 2^40 bytes, both widths and byte orders; header tables are named by definitional byte functions; std::sort, std::upper_bound and std container operations are trusted contracts; lookups assume symbols overlap only as aliases (nested ones are a known finding)", "harness": [{"src": "P11.cpp", "secs": 8}]},
    "P16": {"level": "proof", "note": "any line below 2^40 bytes; std::string find/rfind/substr and std::stoi are trusted contracts (a leading blank or sign of the number is stoi's leniency); the atos branch (macOS) is not covered", "harness": [{"src": "P16.cpp", "secs": 5, "exclude": ["symbols/symbols_with_addr2line.cpp"]}]},
    "P15": {"level": "proof", "note": "traces below 2^40 frames, any object map, any tool answer or failure; the body of collate_frames, the pipe and fork plumbing of resolve_addresses and the libdl back end are covered by the executable contract only; std::unordered_map iteration is a trusted contract", "harness": [{"src": "P15.cpp", "secs": 6, "exclude": ["symbols/symbols_with_addr2line.cpp"]}]},
    "P17": {"level": "proof", "note": "traces below 2^40 frames; the printed and stringified forms are covered by the executable contract only; std::transform is the library code, std::copy, vector and string operations are trusted contracts; running out of memory is out of scope", "harness": [{"src": "P17.cpp", "secs": 5, "exclude": ["ctrace.cpp", "symbols/symbols_core.cpp", "symbols/symbols_with_addr2line.cpp", "binary/object.cpp", "unwind/unwind_with_unwind.cpp"]}]},
    "P18": {"level": "proof", "note": "raw and resolved traces below 2^40 frames; system_error and the constructors are covered by the executable contract only; std::rethrow_exception, vector and string operations are trusted contracts; an empty exception_ptr is out of scope", "harness": [{"src": "P18.cpp", "secs": 5, "exclude": ["exceptions.cpp", "symbols/symbols_core.cpp", "symbols/symbols_with_addr2line.cpp"]}]},
    "P07": {"level": "proof", "note": "traces below 2^30 frames, indents below 2^30; a stream is the text appended to it (insertion operators, ostream_iterator, ostringstream, fwrite trusted); prettify/prune/get_snippet by contract; std::find_if and callables by contract; wide terminals, Windows console modes out of scope", "harness": [{"src": "P07.cpp", "secs": 6}]},
    "P08": {"level": "proof", "note": "every member function from any settings; callables are opaque values copied and destroyed by their managers (whose copying does not throw); using a moved-from formatter other than to assign to or destroy it is out of scope", "harness": [{"src": "P08.cpp", "secs": 5}]},
    "P09": {"level": "proof", "note": "any file below 2^30 bytes, any line, context and column below 2^31-256; std::string, vector, unordered_map, ifstream and mutex operations are trusted contracts; a file that changes while it is read, and line lengths against columns, are out of scope", "harness": [{"src": "P09.cpp", "secs": 6}]},
    "P01": {"level": "proof", "note": "every byte string below 2^31-8 bytes: each tokenizer and parser function by its own contract (cursor inside the text, a match uses up text, no exception, every loop and recursion has a variant); the file's static tables are obtained by running their initialisers; std::string growth, isalpha and friends (C locale) are trusted; stack depth for deep nesting is out of scope", "harness": [{"src": "P01.cpp", "secs": 6}]},
    "P02": {"level": "proof", "note": "per function, for every text below 2^31-8 bytes: each token is what the definition of tokens gives (longest operator, maximal identifiers and numbers, quotes, anonymous namespaces), each parser function appends exactly what its construct keeps of the tokens it takes and drops what is to be dropped, brackets by depth; that the composition of these contracts on the demanglers' grammar is the qualified name is checked by the executable contract only (bounded); functions returning pointers to members are a known finding", "harness": [{"src": "P02.cpp", "secs": 6}]},
}
