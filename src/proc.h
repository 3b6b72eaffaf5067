// Running external commands (the cloog command, gcc, generated programs).
#pragma once
#include "core.h"
struct Run { int status = -1; bool timeout = false; std::string out, err; bool ok() const; };
Run run_cmd(const std::vector<std::string> &argv, const std::string &in = "", double timeout = 20, const std::string &dir = "");
std::string read_file(const std::string &p);
void write_file(const std::string &p, const std::string &s);
std::string cli_path();
