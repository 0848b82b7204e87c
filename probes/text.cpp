// Instantiates the inline text helpers; every body under contract is the one in /repo.
#include "utils/utils.hpp"
#include "utils/string_view.hpp"
#include <string>
#include <vector>
namespace probe {
    using namespace cpptrace::detail;
    std::string t_trim(const std::string& s) { return trim(s); }
    bool t_starts_with(const std::string& s, const std::string& p) { return starts_with(s, p); }
    std::string t_basename(cstring_view p) { return basename(p); }
    std::string t_basename_win(cstring_view p) { return basename(p, true); }
    std::vector<std::string> t_split(const std::string& s, const std::string& d) { return split(s, d); }
    std::string t_join(const std::vector<std::string>& v, const std::string& d) { return join(v, d); }
    string_view sv_substr(const string_view& v, std::size_t p, std::size_t n) { return v.substr(p, n); }
    char sv_front(string_view& v) { return v.front(); }
    char sv_back(string_view& v) { return v.back(); }
    bool sv_ne(string_view a, string_view b) { return a != b; }
    void sv_append(std::string& s, string_view b) { s += b; }
    std::string sv_str(string_view& a) { return std::string(a); }
}
