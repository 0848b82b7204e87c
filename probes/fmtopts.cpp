// The formatter with the places of its settings; every body under contract is the one in /repo.
#include <cstddef>
#include "formatting.cpp"
namespace probe {
    using I = cpptrace::formatter::impl;
    #define AT(x) std::size_t at_##x() { return offsetof(I, options.x); }
    AT(header) AT(color) AT(addresses) AT(paths) AT(snippets) AT(break_before_filename) AT(context_lines) AT(columns) AT(symbols)
    AT(show_filtered_frames) AT(hide_exception_machinery) AT(filter) AT(transform)
    std::size_t size() { return sizeof(I); }
}
