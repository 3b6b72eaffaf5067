// Parser and interpreter for the C and Fortran text that CLooG prints.
#pragma once
#include "problem.h"
#include <memory>

struct TExpr {
	enum K { NUM, VAR, CALL, BIN, NEG } k;
	Z v = 0;
	std::string s;                                  // VAR name, CALL function, BIN operator
	std::vector<std::unique_ptr<TExpr>> a;
};
typedef std::unique_ptr<TExpr> TE;
struct TStmt {
	enum K { FOR, IF, ASS, CALL, BLOCK, PRAGMA } k;
	std::string s;                                  // iterator, lhs, callee, pragma text
	TE lb, ub;                                      // FOR; null: absent
	Z step = 1;
	std::vector<TE> cond;                           // IF: conjunction of comparisons
	TE e;                                           // ASS
	std::vector<TE> args;                           // CALL
	std::vector<std::string> argname;               // CALL: "x" of "x = e", "" otherwise
	std::vector<TStmt> body;
	int line = 0, indent = 0;
};
struct TProg { std::vector<TStmt> body; bool has_mod_ineq = false; };

// Throws Violation("syntax") when the text is not what a C (Fortran) compiler would accept.
TProg parse_c(const std::string &text);
TProg parse_fortran(const std::string &text);

struct TCall { std::string f; Vec x; };
struct TInterp {
	bool ineq_residue = true;                       // % inside <= or >= is read as the non-negative residue
	long neg_ineq_mod = 0;                          // how often that made a difference (known finding cmod)
	bool fortran = false;
	Z window = 0;                                   // clip loops to [-W,W] when > 0
	size_t maxsteps = 2000000, steps = 0;
	std::vector<std::pair<std::string, Z>> env;
	std::vector<TCall> calls;
	std::function<void(TInterp &, const TStmt &)> on_call;   // calls not recorded when it returns
	Z eval(const TExpr &e);
	void exec(const std::vector<TStmt> &b);
	Z *find(const std::string &n);
	Z rem(Z a, Z b);
	int in_ineq = 0;
};
