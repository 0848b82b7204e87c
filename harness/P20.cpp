#include "hx.hpp"
#include <cpptrace/utils.hpp>
#include <cpptrace/cpptrace.hpp>
#include "logging.hpp"
#include "utils/error.hpp"
#include "options.hpp"
#include <iostream>
using namespace hx;
using cpptrace::log_level;
namespace lg = cpptrace::detail::log;
struct msg { int cb; log_level l; std::string t; };
static std::vector<msg> got;
static void emit(log_level l, const std::string& t, bool formatted) {
    const char* s = t.c_str();
    switch(l) {
        case log_level::debug: formatted ? lg::debug("{}", s) : lg::debug(s); break;
        case log_level::info: formatted ? lg::info("{}", s) : lg::info(s); break;
        case log_level::warning: formatted ? lg::warn("{}", s) : lg::warn(s); break;
        default: formatted ? lg::error("{}", s) : lg::error(s); break;
    }
}
static void throw_kind(int k) {
    switch(k) {
        case 0: throw cpptrace::detail::internal_error(std::string("boom"));
        case 1: throw std::runtime_error("boom");
        case 2: throw 42;
        default: throw std::string("boom");
    }
}
static std::string ename(log_level l) { return cpptrace::to_string(l); }
static void body() {
    rng r(S().seed);
    static const log_level all[4] = {log_level::debug, log_level::info, log_level::warning, log_level::error};
    static const char* names[4] = {"debug", "info", "warning", "error"};
    for(int i = 0; i < 4; i++) { at("names", names[i]); eq(ename(all[i]), std::string(names[i]), "names", names[i], "name of the level"); }
    {
        // nothing is reported before a callback is installed (the null logger), at any level
        std::streambuf* o1 = std::cerr.rdbuf(); std::ostringstream cap; std::cerr.rdbuf(cap.rdbuf());
        for(auto l : all) { at("initial", ename(l)); emit(l, "m", false); }
        std::cerr.rdbuf(o1);
        eq(cap.str(), std::string(), "initial", "no callback installed", "silent by default");
    }
    int threshold = 2, cb = -1;   // the default threshold is warning
    int nextcb = 0;
    {
        int id = nextcb++; cb = id;
        cpptrace::set_log_callback([id](log_level l, const char* m) { got.push_back({id, l, m}); });
        for(int i = 0; i < 4; i++) {
            got.clear(); at("default-threshold", names[i]); emit(all[i], "m", false);
            eq((int)got.size(), i >= 2 ? 1 : 0, "default-threshold", names[i], "delivered");
        }
    }
    budget b(0.9, 300000);
    std::string hist;
    while(b.more()) {
        int op = (int)r.below(10);
        if(op == 0) { threshold = (int)r.below(4); cpptrace::set_log_level(all[threshold]); hist = "level=" + std::string(names[threshold]); }
        else if(op == 1) {
            int id = nextcb++; cb = id;
            cpptrace::set_log_callback([id](log_level l, const char* m) { got.push_back({id, l, m}); });
        } else if(op == 2) {
            // an internal error is logged at error level, and propagates exactly when absorbing is off
            bool absorb = r.chance(1, 2); int k = (int)r.below(4);
            cpptrace::absorb_trace_exceptions(absorb);
            std::string key = std::string(absorb ? "absorb" : "propagate") + " kind " + std::to_string(k);
            at("internal-error", key);
            eq(cpptrace::detail::should_absorb_trace_exceptions(), absorb, "internal-error", key, "option");
            got.clear(); std::string escaped = "nothing", want = absorb ? "nothing" : k == 0 ? "internal" : k == 1 ? "runtime" : k == 2 ? "int" : "string";
            try {
                try { throw_kind(k); } catch(...) { cpptrace::detail::log_and_maybe_propagate_exception(std::current_exception()); }
            } catch(const cpptrace::detail::internal_error&) { escaped = "internal"; }
            catch(const std::runtime_error&) { escaped = "runtime"; }
            catch(int i) { escaped = i == 42 ? "int" : "other int"; }
            catch(const std::string& s) { escaped = s == "boom" ? "string" : "other string"; }
            catch(...) { escaped = "other"; }
            eq(escaped, want, "internal-error", key, "what propagates");
            eq((int)got.size(), 1, "internal-error", key, "logged once");
            if(got.size() == 1) {
                eq(ename(got[0].l), std::string("error"), "internal-error", key, "logged as an error");
                if(k < 2) ok(got[0].t.find("boom") != std::string::npos, "internal-error", key, "the message is logged");
                if(k == 1) ok(got[0].t.find("std::runtime_error") != std::string::npos, "internal-error", key, "the type is logged");
            }
            got.clear();
            // no exception: nothing escapes
            try { cpptrace::detail::log_and_maybe_propagate_exception(nullptr); } catch(...) { fail("internal-error", key, "a null exception escaped"); }
            got.clear();
        } else {
            int l = (int)r.below(4);
            std::string t; std::size_t n = r.below(20); for(std::size_t i = 0; i < n; i++) t += r.chance(1, 6) ? (char)(1 + r.below(255)) : "abc{}%s\n"[r.below(8)];
            bool f = r.chance(1, 2);
            std::string key = std::string(names[l]) + (f ? " formatted " : " ") + quote(t) + " threshold " + names[threshold];
            at("message", key);
            got.clear();
            emit(all[l], t, f);
            bool want = l >= threshold;
            if(eq((int)got.size(), want ? 1 : 0, "message", key, "delivered") && want) {
                eq(got[0].cb, cb, "message", key, "to the callback installed last");
                eq(ename(got[0].l), std::string(names[l]), "message", key, "level");
                eq(quote(got[0].t), quote(t), "message", key, "text");
            }
            nontrivial();
        }
    }
    {
        at("stderr", "the stderr logger");
        std::streambuf* o1 = std::cerr.rdbuf(); std::ostringstream cap; std::cerr.rdbuf(cap.rdbuf());
        cpptrace::set_log_level(log_level::info); cpptrace::use_default_stderr_logger(); got.clear();
        emit(log_level::debug, "no", false); emit(log_level::info, "one", false); emit(log_level::error, "two", true);
        std::cerr.rdbuf(o1);
        eq(cap.str(), std::string("[cpptrace info] one\n[cpptrace error] two\n"), "stderr", "the stderr logger", "text");
        eq((int)got.size(), 0, "stderr", "the stderr logger", "replaces the callback");
    }
}
HX_MAIN(body)
