// std::regex is library code that works on the caller's data only. Compiled here without access hooks: the linker takes
// these instances, and using an expression is not a million scheduling points.
#include <regex>
#include <string>
namespace {
typedef std::regex_traits<char> T;
typedef std::string::const_iterator I;
typedef std::allocator<std::sub_match<I>> A;
} // namespace
template class std::basic_regex<char>;
template class std::__detail::_Compiler<T>;
template class std::__detail::_Scanner<char>;
template class std::__detail::_NFA<T>;
template class std::match_results<I>;
template class std::vector<std::sub_match<I>>;
namespace sim {
// instantiates what fimex uses
int regex_instances(const std::string& s)
{
    std::smatch m;
    std::regex r(s), i(s, std::regex::icase);
    int n = std::regex_search(s, m, r) + std::regex_match(s, m, i) + std::regex_search(s, r) + std::regex_match(s, r) + int(std::regex_replace(s, r, s).size()) + int(std::regex_replace(s, r, "x").size());
    return n + std::regex_search(s.begin(), s.end(), m, r);
}
} // namespace sim
