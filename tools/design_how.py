HOW.update({
"P01": "A grammar-free statement: for any text, the tokenizer's cursor stays inside it, every match uses up text (so recursion and loops have a variant), and no function throws or reads outside; prune_symbol then returns its answer or the text itself. The file's static token tables are obtained by running their initialisers symbolically. Tests sample a few dozen symbols; this ranges over every byte string.",
"P02": "A ghost record of tokens taken, tokens appended and parser functions called is kept along every path; each function's postcondition relates them: what is appended is exactly what the construct keeps of what was taken, in order, nothing that starts the construct is passed over, and a failure is justified by the text. Loops are specified round by round (an automaton over the record), brackets by a ghost depth. Tokens are specified on the characters (maximal runs at an arbitrary place, longest match over the real table, escapes and nesting by definitional functions). The composition to 'the qualified name' over the demanglers' grammar is an argument over these contracts, exercised by the executable contract, whose generator knows the qualified name by construction.",
"P03": "Each helper's postcondition is its definition on the character sequence, over strings and views of symbolic length.",
"P04": "The integer writers are proved digit by digit per base; the placeholder parser and format are proved step by step (one step from any position in any format text), against the grammar of placeholders.",
"P05": "Comparison, reading and conversion of nullable<T> for every width and sign used, frame equality over all fields.",
"P06": "Object-lifetime ghost state: every constructor, assignment, swap, reset and destructor of optional and Result leaves exactly one live value (constructed once, destroyed once).",
"P07": "Event ghost: the sequence of pieces written to the stream must be exactly the one the options ask for, frame by frame, with loop invariants over the printed prefix of the trace.",
"P08": "Each setter, copy, move and destructor of the formatter from any settings: the target has the requested settings, everything else is untouched, the source of a copy too.",
"P09": "get_snippet and its parts: line index from the file's text, window of lines, margin, caret; the file is an arbitrary text.",
"P10": "ELF reading over an arbitrary image through arbitrary loaders: every access is inside the loaded object, and every failure is an error value.",
"P11": "Decoding functions equal definitional byte functions on the image, for both widths and byte orders; lookups equal the definition over the sorted table.",
"P12": "The registry as a finite map from ranges to objects: add, remove and lookup meet its definition, the sorted vector's invariant is preserved.",
"P13": "The cache against a ghost recency list: get, set, eviction and resizing are its definition.",
"P14": "The unwind callbacks against the loop of the unwinder's documentation over an arbitrary stack: the captured frames are frames skip..skip+max_depth, with interrupted frames unadjusted.",
"P15": "Order and count are loop invariants over arbitrary traces, object maps and answers of the tools.",
"P16": "One line of addr2line's output against the definition of its fields.",
"P17": "Conversion loops: element-wise equality, fresh ownership of every string, release exactly once; the API functions against contracts for capture and resolution.",
"P18": "what(), trace(), rethrow_and_wrap and the copying members, over raw and resolved states.",
"P19": "demangle with __cxa_demangle an arbitrary function: result or original text, buffer released on every path.",
"P20": "Level check and callback dispatch, over every level and callback state.",
"P21": "Parsing and lookup of the mapping table over an arbitrary sequence of map lines.",
"P22": "Fields and terminator of the filled object for every answer of _dl_find_object and readlink.",
"P23": "Definitions of the helpers as bit-vector identities, all widths used.",
})
