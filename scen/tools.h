// fimex' programs run inside the simulation
#pragma once
#include <string>
#include <vector>
namespace hs {
// run a program with these arguments (without its name); returns the exit status, 255 if an exception left main
int run_tool(const std::string& name, const std::vector<std::string>& args, std::string* what = nullptr);
}
