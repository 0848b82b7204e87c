// Instantiates the formatting helpers; every body under contract is the one in /repo.
#include "utils/microfmt.hpp"
#include <string>
namespace probe {
    namespace mf = cpptrace::microfmt::detail;
    typedef std::back_insert_iterator<std::string> out;
    std::string f_ts(std::uint64_t v, const mf::format_options& o) { return mf::to_string(v, o); }
    void f_dw(out o, const char* b, const char* e, const mf::format_options& p) { mf::do_write(o, b, e, p); }
    void f_fv(out o, const mf::format_value& v, const mf::format_options& p) { v.write(o, p); }
    void f_fmt(out o, const char* b, const char* e, const std::initializer_list<mf::format_value>& a) { mf::format(o, b, e, a); }
}
