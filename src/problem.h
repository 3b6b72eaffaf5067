// Structured CLooG problems: generation, oracle enumeration, rendering.
#pragma once
#include "core.h"
#include <isl/ctx.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_map.h>
#include <gmp.h>
#include <cloog/isl/cloog.h>
#include <cloog/pprint.h>

struct Row { bool eq = false; std::vector<Z> c; };      // dims..., locals..., params..., const
struct BSet { int nloc = 0; std::vector<Row> rows; };
struct Dom { int n = 0; std::vector<BSet> bs; };
struct Stmt {
	Dom dom;
	// scattering relation; columns: scat dims, iterators, locals, params, const
	BSet scat;
	std::vector<int> scat_kind;
	std::string name;               // only used by API routes; "" = none
};
struct Prob {
	int npar = 0, nscat = 0;        // nscat == 0: no scattering
	std::vector<BSet> ctx;          // union of basic sets over the parameters
	std::vector<Stmt> st;
	std::vector<std::string> pname, iname, sname;   // empty: generated
	bool bounded = true;
	Z window = 0;                   // for unbounded problems
	int lang = 0;                   // 0 C, 1 Fortran
	int maxdim() const { int m = 0; for (auto &s : st) m = std::max(m, s.dom.n); return m; }
};

struct GenCfg {
	int maxstmt = 4, maxdim = 3, maxpar = 2, maxscat = 4;
	bool allow_unbounded = false;
	bool allow_multi = false;       // non single valued scattering relations
	bool need_scat = false, no_scat = false;
	bool names = true;
	bool fortran = false;
	bool union_ctx = false;
	bool locals = true;             // existential variables at all
	int locmode = 0;                // set per problem: 1 modulo equalities in domains, 2 one quasi-affine inequality pair per domain, 3 modulo scatterings
	bool big = false;               // huge constants
	bool plain_rows = false;        // scattering only by equalities s = f(i) (matrix route)
};
Prob gen_problem(Src &s, const GenCfg &cfg);

struct Opt {
	int l = -1, f = 1, stop = -1, strides = 0, sh = 0, first_unroll = -1, esp = 1, fsp = 1, otl = 1;
	int block = 0, backtrack = 0, noscalars = 0, noblocks = 0, save_domains = 0, compilable = 0, callable = 0, nosimplify = 0;
	std::vector<int> fs, ls;
	std::string str() const;
	bool is_default() const;
};
Opt gen_options(Src &s, const Prob &p, int level = 1);
void apply_options(const Opt &o, CloogOptions *co);

// ---- oracle ----
typedef std::vector<Z> Vec;
bool bset_sat(const BSet &b, const Vec &dims, const Vec &par);           // locals existentially quantified
bool dom_contains(const Dom &d, const Vec &x, const Vec &par);
bool ctx_contains(const Prob &p, const Vec &par);
// All points of the domain, lexicographically sorted and without duplicates;
// only points in [-W,W]^n when W > 0.  Throws Inconclusive when over limit.
std::vector<Vec> enum_bset(const BSet &b, int n, const Vec &par, Z W, size_t limit);
std::vector<Vec> enum_dom(const Dom &d, const Vec &par, Z W, size_t limit);
// All dates of instance x
std::vector<Vec> dates(const Prob &p, const Stmt &s, const Vec &x, const Vec &par, Z W);
// Parameter vectors satisfying the context
std::vector<Vec> gen_params(Src &s, const Prob &p, int count, int lo = -3, int hi = 9);

// ---- rendering ----
std::string cloog_text(const Prob &p, Src *style = nullptr);   // CLooG input file
std::string vecstr(const Vec &v);

// ---- loading through the library ----
struct Lib {
	CloogState *state = nullptr;
	CloogOptions *opt = nullptr;
	isl_ctx *own = nullptr;
	Lib(bool own_ctx = false);
	~Lib();
};
CloogInput *load_text(Lib &lib, const std::string &text);
isl_set *dom_to_isl(isl_ctx *ctx, const Dom &d, int npar);
isl_map *scat_to_isl(isl_ctx *ctx, const Prob &p, const Stmt &s);
std::string pprint_to_string(struct clast_stmt *root, CloogOptions *opt, int indent = 0);

// ---- AST interpreter ----
struct Event { int stmt; Vec x; };            // stmt: 0-based index
struct InterpCfg {
	bool cmod = false;                     // C semantics of % and / (truncation)
	Z window = 0;                          // clip loops to [-W,W] when > 0
	size_t maxsteps = 2000000;
};
struct Interp {
	InterpCfg cfg;
	std::vector<std::pair<std::string, Z>> env;
	std::vector<Event> ev;
	size_t steps = 0;
	std::function<void(Interp &, struct clast_user_stmt *)> on_user;
	std::function<void(Interp &, struct clast_user_stmt *)> after_user;
	std::function<void(Interp &, struct clast_for *, bool enter)> on_for;
	std::vector<std::pair<struct clast_for *, Z>> loops;   // active loops
	// statistics
	bool saw_mod = false, saw_fdiv = false, saw_stride = false, saw_guard = false, saw_minmax = false, saw_ass = false;
	int maxdepth = 0;
	Z eval(struct clast_expr *e);
	void exec(struct clast_stmt *s);
	bool lookup(const char *n, Z &v);
};
std::vector<Event> run_clast(struct clast_stmt *root, const std::vector<std::string> &pnames,
			     const Vec &par, Z window, Interp *stats = nullptr, bool cmod = false);
std::vector<std::string> clast_param_names(struct clast_stmt *root);

struct AstStats { int fors = 0, guards = 0, asses = 0, users = 0, depth = 0; bool stride = false, mod = false, fdiv = false, minmax = false; };
void ast_stats(struct clast_stmt *s, AstStats &st, int depth = 0);

// ---- comparison with the oracle ----
struct Expect { std::vector<std::vector<Vec>> pts; };   // per statement
// Throws Violation unless the events are exactly the domain's points, each
// executed once per date.
void check_exact(const Prob &p, const Vec &par, const std::vector<Event> &ev, Z W, long *npoints);
void check_order(const Prob &p, const Vec &par, const std::vector<Event> &ev, int levels, bool noopt);
void label_problem(const Prob &p, Result &r);
std::string render_case(const std::string &text, const Opt &o, const std::vector<Vec> &par);
void label_ast(struct clast_stmt *root, Result &r);
void label_opt(const Opt &o, Result &r);
