#include "tools.h"
#include "harness.h"
#include <csetjmp>
#include <iostream>
#include <sstream>

int sim_main_fimex(int, char**);
int sim_main_fiIndexGribs(int, char**);
int sim_main_fiGrbmlCat(int, char**);
int sim_main_fiGribCut(int, char**);
int sim_main_fiXYcontents(int, char**);

namespace {
jmp_buf g_exit;
bool g_in_tool = false;
int g_status = 0;
} // namespace
extern "C" [[noreturn]] void sim_exit(int status)
{
    if (!g_in_tool) sim::violation("exit", "the library called exit(%d)", status);
    g_status = status;
    longjmp(g_exit, 1);
}
namespace hs {
static int call(int (*f)(int, char**), int n, char** a, std::string* what)
{
    try {
        return f(n, a);
    } catch (std::exception& e) {
        if (what) *what = e.what();
        return 255;
    } catch (...) {
        if (what) *what = "unknown exception";
        return 255;
    }
}
int run_tool(const std::string& name, const std::vector<std::string>& args, std::string* what)
{
    int (*f)(int, char**) = name == "fimex" ? sim_main_fimex : name == "fiIndexGribs" ? sim_main_fiIndexGribs : name == "fiGrbmlCat" ? sim_main_fiGrbmlCat : name == "fiGribCut" ? sim_main_fiGribCut : sim_main_fiXYcontents;
    std::vector<std::string> keep = {name};
    keep.insert(keep.end(), args.begin(), args.end());
    std::vector<char*> av;
    for (auto& s : keep) av.push_back(&s[0]);
    av.push_back(nullptr);
    struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    static NullBuf nb;
    std::streambuf *ob = std::cout.rdbuf(&nb), *eb = std::cerr.rdbuf(&nb), *lb = std::clog.rdbuf(&nb);
    g_in_tool = true;
    volatile int st;
    if (setjmp(g_exit) == 0)
        st = call(f, int(keep.size()), av.data(), what);
    else
        st = g_status;
    g_in_tool = false;
    std::cout.rdbuf(ob), std::cerr.rdbuf(eb), std::clog.rdbuf(lb);
    return st;
}
} // namespace hs
