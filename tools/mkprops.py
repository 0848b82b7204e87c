#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the property catalogue). Edit here, run, commit both.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Pruning a symbol name never fails, whatever the text",
  "For every input string, asking for the pruned form of a symbol returns normally: it never throws, never reads outside the string it was given, and always terminates. The answer is the input itself, unchanged, whenever the text cannot be parsed as a symbol, and a non-empty input never gives an empty answer.",
  ["inputs"],"every byte string (stack depth permitting)",
  "The tests prune a few hundred well-formed symbols; malformed, truncated, adversarial and non-ASCII text is unbounded and a single out-of-range read or escaping exception on any of it breaks stack trace printing.",
  ["src/prune_symbol.cpp","src/utils/string_view.cpp"],
  [("symbol_tokenizer (cursor never passes the end; every token is a piece of the input)","src/prune_symbol.cpp: class symbol_tokenizer"),
   ("symbol_parser / prune_symbol (errors are values, fall back to the input)","src/prune_symbol.cpp: class symbol_parser, prune_symbol"),
   ("string_view","src/utils/string_view.hpp, src/utils/string_view.cpp")])
p("P02","Pruning keeps exactly the qualified name of a well-formed symbol",
  "For a demangled symbol built from the usual grammar, the pruned form is its qualified name: scopes, identifiers, destructors, operators, conversion operators, lambdas and anonymous namespaces are kept in order, while return types, template arguments, parameter lists, cv/ref qualifiers, ABI tags and trailing decoration are dropped. Pruning an already pruned plain qualified name gives the same name back.",
  ["inputs"],"every symbol produced by the grammar of demangled names (any nesting of template arguments, function types, operators and lambdas)",
  "Example-based tests pin individual spellings; the property quantifies over all nestings and combinations, where a tokenizer or parser slip shows only for one combination.",
  ["src/prune_symbol.cpp"],
  [("tokenizer: longest operator first, identifiers, literals, anonymous namespaces","src/prune_symbol.cpp: symbol_tokenizer::*"),
   ("parser: name, template args, function params, operators","src/prune_symbol.cpp: symbol_parser::*")])
p("P03","Text helpers agree with their string definitions on every input",
  "Prefix, suffix, find-last-of, substring, equality and bounds-checked access on string views, and the path base name, prefix test, whitespace trimming and splitting helpers, return exactly what their mathematical definitions on the character sequence say, for every input including empty views and all-whitespace text. None of them reads outside the text or throws, except the documented out-of-range access.",
  ["inputs"],"all strings and views, all positions",
  "Unit tests sample a dozen strings; the helpers are used on every path, symbol and tool output the library sees, and their edge cases (empty needle, suffix longer than text, nothing but blanks) are where they go wrong.",
  ["src/utils/string_view.cpp","src/utils/string_view.hpp","src/utils/utils.hpp","src/utils/replace_all.cpp"],
  [("string_view::{starts_with,ends_with,find_last_of,substr,operator[],at}, operator==","src/utils/string_view.{hpp,cpp}"),
   ("trim, split, join, starts_with, basename","src/utils/utils.hpp"),
   ("replace_all","src/utils/replace_all.cpp")])
p("P04","Formatting a value writes exactly the requested text",
  "Formatting an integer in any supported base writes its exact minimal representation, a width pads to exactly that width with the requested fill on the requested side and never truncates, doubled braces write one brace, and malformed or unmatched placeholders and missing arguments never read out of range. The rest of the format text is copied verbatim.",
  ["inputs"],"all 64-bit integers, all strings, all widths, alignments, fills, bases and format strings",
  "Tests cover a handful of values; boundary values (zero, powers of the base, the most negative integer), runtime widths and malformed format strings form an unbounded space.",
  ["src/utils/microfmt.hpp","src/utils/microfmt.cpp"],
  [("do_write, to_string<shift,mask>, format_value::write, format","src/utils/microfmt.hpp")])
p("P05","Nullable values and frames compare and convert consistently",
  "A nullable integer is empty exactly when it was default-constructed, reset or built from null; reading it, reading it with a default, swapping and comparing behave as an optional integer. Two frames are equal exactly when address, object address, line, column, file name and symbol are all equal, and unequal is always the negation of equal.",
  ["inputs"],"all integer values and all pairs of frames",
  "Tests compare a few frames; the law quantifies over all pairs of frames and every field.",
  ["include/cpptrace/basic.hpp"],
  [("nullable<T>, stacktrace_frame::operator==/!=","include/cpptrace/basic.hpp")])
p("P06","Optional and result containers hold exactly one live value",
  "Over every sequence of construction, copy, move, assignment (including self-assignment), swap, reset and access, an optional or result holds what was last stored, never exposes a value it does not hold, and constructs and destroys each contained object exactly once. Reading an absent value or the wrong alternative is reported instead of returning garbage.",
  ["histories","inputs"],"all operation sequences over any number of containers and any contained values",
  "Unit tests run single short sequences; lifetime errors need specific source/destination states in combination.",
  ["src/utils/optional.hpp","src/utils/result.hpp"],
  [("optional<T>","src/utils/optional.hpp"),("Result<T,E>","src/utils/result.hpp")],
  [("holds_value / active","which union member is alive")])
p("P07","A printed trace shows every frame as configured, in order",
  "For every trace and every formatter configuration, the output is the header followed by one entry per shown frame in order, numbered from zero with equal-width numbers, each showing address, symbol, path, line and column in the configured modes and nothing else; a filtered frame keeps its number and shows the placeholder or nothing, as configured. Hiding exception machinery starts right after the throw frame, an empty trace prints the placeholder, colour codes appear only when colour is on, and formatting to a string and printing to a stream agree.",
  ["inputs","configurations"],"all traces (any length, any field values) and all formatter option combinations, filters and transforms",
  "The tests print a few fixed traces with a few option combinations; the product of options, field absence, filters and trace lengths is unbounded.",
  ["src/formatting.cpp","include/cpptrace/formatting.hpp"],
  [("formatter::impl::write_trace/write_frame/write_address/write_symbol/write_source_location/get_trace_start","src/formatting.cpp")])
p("P08","Formatter objects are independent values",
  "Copying a formatter gives an independent formatter with identical behaviour, moving transfers the behaviour, assignment replaces all settings of the destination, and assigning a formatter to itself leaves it unchanged and usable. Every setting changes only the aspect it names, and the last value set wins.",
  ["histories"],"all sequences of construction, copy, move, assignment, self-assignment and option setting",
  "Tests build a formatter once and print with it; aliasing and setter cross-talk show only after particular sequences.",
  ["src/formatting.cpp","include/cpptrace/formatting.hpp"],
  [("formatter special members and setters","src/formatting.cpp: formatter::formatter, formatter::operator=")])
p("P09","Source snippets show the right lines and nothing outside the file",
  "For every file content, target line, column, context size and colour choice, the snippet contains exactly the lines within the context around the target that exist in the file, with leading and trailing blank context lines removed, each with its own line number, and the target line marked, with the column marker directly below the column. A missing or oversized file, or a target line outside the file, never crashes, reads outside the file or shows a wrong line.",
  ["inputs"],"all file contents, line numbers, columns and context sizes, including those past the end of the file",
  "Tests print snippets of their own source; stale sources, empty files, CRLF, lines past the end and huge numbers are not sampled.",
  ["src/snippets/snippet.cpp"],
  [("snippet_manager, get_lines, write_line, get_snippet","src/snippets/snippet.cpp")])
p("P10","Reading object files never goes out of bounds, whatever the bytes",
  "Opening and querying an ELF image made of arbitrary bytes, from a file or from memory, either gives an answer or reports an error: it never reads outside the image or outside tables loaded from it, never writes outside its buffers, and never crashes. A failed load keeps being reported as a failure when queried again.",
  ["inputs","histories"],"all byte sequences and all sequences of queries on one object",
  "Tests only read well-formed binaries produced by the local toolchain; corrupted, truncated, hostile or foreign-endian images are an unbounded input space.",
  ["src/binary/elf.cpp","src/binary/elf.hpp","src/utils/io/memory_file_view.cpp","src/utils/io/base_file.hpp","src/utils/io/file.cpp"],
  [("elf::open/get_header_info/get_sections/get_strtab/get_symtab/lookup_symbol","src/binary/elf.cpp"),
   ("memory_file_view::read_bytes bounds check","src/utils/io/memory_file_view.cpp")])
p("P11","Object file queries decode headers, sections and symbols correctly",
  "For every well-formed ELF image of either width and either byte order, the image base is the program-header entry's address minus its offset (zero if absent), the code ranges are exactly the text sections, the symbol tables list exactly the sized symbols with their names, and looking up an address gives the name of a symbol whose range contains it, or nothing when none does. Answers do not depend on the order of queries.",
  ["inputs","histories"],"all well-formed images (32/64 bit, little/big endian, any number of sections and symbols) and all addresses",
  "Tests see one architecture, one byte order and one linker's layout.",
  ["src/binary/elf.cpp","src/binary/elf.hpp","src/utils/utils.hpp"],
  [("get_module_image_base_impl, get_pc_ranges, get_symtab_impl, lookup_symbol, byteswap_if_needed","src/binary/elf.cpp"),
   ("byteswap, first_less_than_or_equal","src/utils/utils.hpp")])
p("P12","The JIT registry always reflects the objects currently registered",
  "After any sequence of registering, unregistering and clearing in-memory objects, looking up an address finds the object whose code range contains it if such an object is currently registered, and nothing otherwise (the ranges of live code do not overlap). Unregistering removes all and only what was registered for that buffer, and an unparsable object registers nothing.",
  ["histories"],"all sequences of register/unregister/clear/lookup over any number of objects and ranges",
  "Tests register at most one or two objects; stale entries and ordering errors need longer histories.",
  ["src/jit/jit_objects.cpp","src/utils/utils.hpp"],
  [("jit_object_manager::add_jit_object/remove_jit_object/lookup/clear_all_jit_objects","src/jit/jit_objects.cpp"),
   ("first_less_than_or_equal","src/utils/utils.hpp")],
  [("range_list","sorted list of code ranges of the live objects")])
p("P13","The LRU cache keeps the most recently used entries, exactly",
  "After any sequence of insertions, updates, reads, touches and capacity changes, the cache holds exactly the most recently used entries up to its capacity, a read returns the value last stored for that key, inserting an existing key changes nothing, and eviction always removes the least recently used entry. The size never exceeds the capacity.",
  ["histories"],"all sequences of cache operations, keys, values and capacities",
  "The unit test runs a few fixed sequences; eviction order depends on the whole history.",
  ["src/utils/lru_cache.hpp"],
  [("lru_cache<K,V>::{insert,set,maybe_get,maybe_touch,set_max_size,maybe_trim}","src/utils/lru_cache.hpp")],
  [("lru list + map","recency order and index")])
p("P14","Skip and max-depth select exactly the requested frames",
  "Capturing a trace with skip s and maximum depth d returns the frames of the current stack with the innermost s dropped, at most d of them, in order and without gaps, for every s and d including zero and values larger than the stack. Each captured address lies inside the call instruction's range (return addresses adjusted once, and interrupted frames not at all where the unwinder tells them apart), and a null address ends the trace.",
  ["inputs","configurations"],"all skip/depth values and all stacks, for each unwinder back end that compiles on Linux",
  "Tests use skip 0-2 and small depths on shallow stacks.",
  ["src/unwind/unwind_with_unwind.cpp","src/unwind/unwind_with_libunwind.cpp","src/unwind/unwind_with_execinfo.cpp","src/cpptrace.cpp"],
  [("unwind_callback, capture_frames","src/unwind/unwind_with_unwind.cpp"),
   ("capture_frames, safe_capture_frames","src/unwind/unwind_with_libunwind.cpp"),
   ("generate_*trace skip accounting","src/cpptrace.cpp")])
p("P15","Resolving keeps one entry per captured address, in order",
  "Resolving a raw or object trace yields, for every captured address in order, an entry carrying that same raw address, its object address and its object path, whatever the symbol tool finds or fails to find; results for one address are never attached to another. A failure while resolving one object leaves the other objects' entries intact.",
  ["inputs","fault_sequences"],"all traces (any mixture of objects, repeated or unknown addresses) and all symbol-tool outputs or failures",
  "Tests resolve real traces in which every object resolves; mixed objects with failures in between are not sampled.",
  ["src/symbols/symbols_with_addr2line.cpp","src/symbols/symbols_core.cpp","src/symbols/symbols_with_dl.cpp","src/symbols/symbols_with_nothing.cpp","src/binary/object.cpp","src/cpptrace.cpp"],
  [("addr2line::resolve_frames, collate_frames","src/symbols/symbols_with_addr2line.cpp, src/symbols/symbols_core.cpp"),
   ("get_frames_object_info","src/binary/object.cpp")])
p("P16","Symbol-tool output lines are parsed exactly or rejected",
  "For every line of symbol-tool output of the form 'symbol at path:line', the symbol, path and line number are extracted exactly, with a '?' line number, a '??' path or an empty symbol leaving that field as it was (text after the digits of the number, such as a discriminator, is allowed); any other line is rejected. No line, however malformed, causes an out-of-range read, and an unparsable line disturbs no other frame.",
  ["inputs"],"all output lines, including paths with colons and spaces, huge or missing numbers and empty fields",
  "Tests depend on the locally installed tool's output for a few functions.",
  ["src/symbols/symbols_with_addr2line.cpp"],
  [("update_trace","src/symbols/symbols_with_addr2line.cpp")])
p("P17","The C interface hands over complete, independent copies",
  "Converting traces across the C interface preserves every frame and every field in both directions, absent lines and columns map to the C sentinel, every returned string is an independent zero-terminated copy, and the printed and stringified forms match the frames given. Freeing releases everything exactly once, leaves the handle empty, and is harmless on null and already-freed handles.",
  ["inputs","histories"],"all traces and strings, all null/empty handle combinations, all sequences of convert, use and free",
  "The C tests walk one happy path; leaks, double frees and sentinel mix-ups depend on particular fields and handle states.",
  ["src/ctrace.cpp","include/ctrace/ctrace.h"],
  [("c_convert, cpp_convert, convert_*_frame, generate_owning_string","src/ctrace.cpp"),
   ("ctrace_free_*, ctrace_resolve_*, ctrace_*_to_string, ctrace_print_stacktrace","src/ctrace.cpp")])
p("P18","Traced exceptions carry their message and trace through any copying",
  "A traced exception's message is what it was built with, its full description is that message followed by the rendered trace, its trace is resolved at most once and stays the same afterwards, and copies and moves carry the same message and trace independently of the original, including self-assignment. A nested exception reports the wrapped exception's description, and a system error carries its code and the code's message.",
  ["histories","inputs"],"all messages, traces, error codes and sequences of copy, move, assignment, resolve and describe",
  "Tests throw and catch once and compare one string; lifetime of the lazily resolved trace depends on the order of operations.",
  ["src/exceptions.cpp","include/cpptrace/exceptions.hpp"],
  [("lazy_trace_holder","src/exceptions.cpp"),("lazy_exception::what, nested_exception::message, system_error","src/exceptions.cpp")],
  [("lazy_trace_holder::resolved","which of raw/resolved trace is alive")])
p("P19","Demangling falls back to the original name",
  "Demangling returns the demangled form of a mangled name, with anything after the first space kept as it was, and returns the name unchanged whenever it is not a valid mangled name; text without a mangling prefix is left alone when resolving traces. It never fails and releases every temporary exactly once.",
  ["inputs"],"all strings",
  "Tests demangle a few valid names.",
  ["src/demangle/demangle_with_cxxabi.cpp","src/utils.cpp"],
  [("demangle","src/demangle/demangle_with_cxxabi.cpp")])
p("P20","Log messages reach the callback exactly when their level permits",
  "A message is delivered to the currently installed callback, once, unchanged and with its own level, exactly when its level is at or above the configured threshold; otherwise nothing happens. Changing the threshold or the callback takes effect for the next message, and internal errors are swallowed or propagated exactly as configured.",
  ["histories","inputs"],"all sequences of level changes, callback changes and messages",
  "The tests barely exercise logging; the filter must hold for every level pair and history.",
  ["src/logging.cpp","src/logging.hpp","src/utils/error.cpp","src/options.cpp"],
  [("do_log, set_log_level, set_log_callback, to_string","src/logging.cpp"),
   ("log_and_maybe_propagate_exception","src/utils/error.cpp")])
p("P21","Page protections come from the mapping that contains the page",
  "For every process memory map, asking for a page's protection returns the permissions of the mapping containing that page and reports an error when no mapping contains it; every mapping line is decoded to exactly its bounds and permissions. A torn or malformed map is detected rather than used.",
  ["inputs"],"all memory maps (any number of mappings and gaps) and all page addresses",
  "Tests query the pages of one process whose mappings are all present.",
  ["src/platform/memory_mapping.cpp","src/utils/utils.hpp"],
  [("read_map_entry, try_load_mapped_region_info, get_page_protections","src/platform/memory_mapping.cpp")])
p("P22","Signal-safe object frames are complete and zero-terminated",
  "For every address and whatever object path the dynamic loader reports, filling a signal-safe frame sets the raw address, sets the object-relative address and path consistently (both empty when the address belongs to no object), and always leaves the path zero-terminated inside its buffer. Resolving such a frame later reproduces the same address and path.",
  ["inputs","configurations"],"all addresses, load biases and path lengths, including paths at and beyond the buffer limit",
  "Tests see short paths and addresses inside loaded objects only.",
  ["src/binary/safe_dl.cpp","src/binary/object.cpp"],
  [("get_safe_object_frame","src/binary/safe_dl.cpp"),("resolve_safe_object_frame, resolve_l_name, get_frame_object_info","src/binary/object.cpp")])
p("P23","Integer and ordering helpers are exact",
  "Byte swapping reverses the bytes of every value of every width and is its own inverse, digit counting, power-of-two testing and the closest-not-greater search return exactly what their definitions say, and the move-and-replace and cleanup helpers run their action exactly once. No input overflows or reads outside its range.",
  ["inputs"],"all integer values of every width; all sorted sequences and probes",
  "Tests check a handful of constants.",
  ["src/utils/utils.hpp"],
  [("byteswap, n_digits, is_positive_power_of_two, first_less_than_or_equal, exchange, raii_wrapper, scope_guard","src/utils/utils.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
for x in P:
    assert len(x["title"])<=80,x["title"]
