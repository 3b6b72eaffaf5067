// C03 C text, C04 Fortran text, C06 parallel annotations: the printed text
// means what the AST means (and what the problem asks for).
#include "ctext.h"

// ------------------------------------------------------------ random ASTs

namespace {
static const char *const IT[] = { "i", "j", "k", "l", "c5", "c6" };
static const char *const PN[] = { "M", "N" };
struct AstGen {
	Src &s;
	CloogState *st;
	bool fortran;
	std::vector<const char *> vars;         // names with a value here
	int nstmt = 0, nass = 0;
	AstGen(Src &s, CloogState *st, bool f) : s(s), st(st), fortran(f) { vars = { PN[0], PN[1] }; }
	struct clast_term *term(long v, struct clast_expr *e)
	{
		cloog_int_t c;
		cloog_int_init(c);
		cloog_int_set_si(c, v);
		struct clast_term *t = new_clast_term(c, e);
		cloog_int_clear(c);
		return t;
	}
	struct clast_expr *bin(clast_bin_type t, struct clast_expr *l, long r)
	{
		cloog_int_t c;
		cloog_int_init(c);
		cloog_int_set_si(c, r);
		struct clast_binary *b = new_clast_binary(t, l, c);
		cloog_int_clear(c);
		return &b->expr;
	}
	struct clast_expr *name() { return &new_clast_name(vars[s.pick((uint32_t)vars.size())])->expr; }
	long nz(int m) { int v = s.range(0, 2 * m - 1); return v % 2 == 0 ? v / 2 + 1 : -(v / 2 + 1); }
	// operands of a term: things that bind tighter than '*' once printed
	struct clast_expr *atom(int d)
	{
		switch (d <= 0 ? 0 : s.weighted({ 60, 12, 12, 8, 8 })) {
		case 1: return sum(d - 1, 2);
		case 2: return minmax(d - 1, 2);
		case 3: return bin(clast_bin_fdiv, operand(d - 1), s.range(2, 5));
		case 4: return bin(clast_bin_cdiv, operand(d - 1), s.range(2, 5));
		default: return name();
		}
	}
	struct clast_term *t1(int d, bool first)
	{
		if (s.chance(1, 4)) return term(nz(9), nullptr);
		long c = s.chance(1, 2) ? 1 : nz(4);
		(void)first;
		return term(c, atom(d));
	}
	struct clast_expr *sum(int d, int minn = 1)
	{
		int n = s.range(minn, 3);
		struct clast_reduction *r = new_clast_reduction(clast_red_sum, n);
		for (int i = 0; i < n; i++) r->elts[i] = &t1(d, i == 0)->expr;
		return &r->expr;
	}
	struct clast_expr *minmax(int d, int minn = 1)
	{
		int n = s.range(minn, 4);
		struct clast_reduction *r = new_clast_reduction(s.chance(1, 2) ? clast_red_max : clast_red_min, n);
		for (int i = 0; i < n; i++) r->elts[i] = expr(d - 1);
		return &r->expr;
	}
	// left operands of a binary operation
	struct clast_expr *operand(int d)
	{
		switch (s.weighted({ 50, 20, 15, 10 })) {
		case 0: return sum(d);
		case 1: return &t1(d, true)->expr;
		case 2: return name();
		default: return minmax(d - 1, 2);
		}
	}
	struct clast_expr *expr(int d)
	{
		switch (d <= 0 ? s.pick(3) : s.weighted({ 15, 15, 30, 15, 20 })) {
		case 0: return name();
		case 1: return &t1(d - 1, true)->expr;
		case 2: return sum(d - 1);
		case 3: return minmax(d - 1);
		default: {
			clast_bin_type t = s.pick(3) == 0 ? clast_bin_div : s.chance(1, 2) ? clast_bin_cdiv : clast_bin_fdiv;
			return bin(t, operand(d - 1), s.range(2, 5));
		}
		}
	}
	void add(struct clast_stmt **&tail, struct clast_stmt *n) { *tail = n; tail = &n->next; }
	struct clast_stmt *user()
	{
		CloogStatement *q = cloog_statement_alloc(st, s.range(1, 4));
		if (s.chance(1, 4)) q->name = strdup("stmt_x");
		struct clast_stmt *subs = nullptr, **t = &subs;
		int n = s.range(0, 4);
		for (int i = 0; i < n; i++) {
			const char *lhs = s.chance(1, 8) && !fortran ? "a" : nullptr;
			add(t, &new_clast_assignment(lhs, expr(2))->stmt);
		}
		struct clast_stmt *u = &new_clast_user_stmt(nullptr, q, subs)->stmt;
		cloog_statement_free(q);
		nstmt++;
		return u;
	}
	void fill(struct clast_stmt **tail, int depth)
	{
		int n = s.range(1, 3);
		size_t mark = vars.size();
		for (int i = 0; i < n; i++) {
			int k = depth >= 5 ? 0 : s.weighted({ 30, 35, 22, 8, fortran ? 0 : 5 });
			if (k == 1) {
				// lower bound l, upper bound min(l + small, other): few iterations
				struct clast_expr *lb = s.chance(1, 3) ? minmax(1) : expr(2), *ub;
				if (s.chance(1, 3)) ub = expr(2);
				else {
					struct clast_reduction *r = new_clast_reduction(clast_red_sum, 2);
					r->elts[0] = &term(s.range(1, 4), nullptr)->expr;
					r->elts[1] = &term(1, name())->expr;
					ub = &r->expr;
				}
				const char *it = IT[depth];
				struct clast_for *f = new_clast_for(nullptr, it, lb, ub, nullptr);
				if (s.chance(1, 3)) cloog_int_set_si(f->stride, s.range(2, 4));
				vars.push_back(it);
				fill(&f->body, depth + 1);
				vars.pop_back();
				add(tail, &f->stmt);
			} else if (k == 2) {
				int m = s.range(1, 3);
				struct clast_guard *g = new_clast_guard(m);
				for (int q = 0; q < m; q++) {
					g->eq[q].sign = (int)s.pick(3) - 1;
					if (s.chance(1, 3)) {
						int md = s.range(2, 5);
						g->eq[q].LHS = bin(clast_bin_mod, operand(1), md);
						g->eq[q].RHS = &term(g->eq[q].sign ? s.range(0, md - 1) : 0, nullptr)->expr;
					} else {
						g->eq[q].LHS = expr(2);
						g->eq[q].RHS = expr(2);
					}
				}
				fill(&g->then, depth);
				add(tail, &g->stmt);
			} else if (k == 3) {
				static std::set<std::string> pool;      // each assigned variable has its own name
				const char *it = pool.insert(strf("v%d", nass++)).first->c_str();
				add(tail, &new_clast_assignment(it, expr(2))->stmt);
				vars.push_back(it);
			} else if (k == 4) {
				struct clast_block *b = new_clast_block();
				size_t m2 = vars.size();
				fill(&b->body, depth);
				vars.resize(m2);
				add(tail, &b->stmt);
			} else
				add(tail, user());
		}
		vars.resize(mark);
	}
};

struct Named { std::string f; Vec x; };
static std::vector<Named> ast_trace(struct clast_stmt *root, const std::vector<std::string> &pn, const Vec &v, Z W)
{
	Interp I;
	std::vector<Named> out;
	I.cfg.maxsteps = 300000;
	I.on_user = [&](Interp &in, struct clast_user_stmt *u) {
		Named n;
		n.f = u->statement->name ? u->statement->name : strf("S%d", u->statement->number);
		for (struct clast_stmt *t = u->substitutions; t; t = t->next) n.x.push_back(in.eval(((struct clast_assignment *)t)->RHS));
		out.push_back(n);
	};
	run_clast(root, pn, v, W, &I);
	return out;
}
static std::string show(const Named &n) { return n.f + vecstr(n.x); }

static void compare(const std::vector<Named> &a, const std::vector<TCall> &t, const Vec &v)
{
	for (size_t i = 0; i < a.size() || i < t.size(); i++) {
		if (i >= a.size()) throw Violation("text-extra", strf("the text executes %s, the AST does not, parameters %s", show({ t[i].f, t[i].x }).c_str(), vecstr(v).c_str()));
		if (i >= t.size()) throw Violation("text-missing", strf("the text does not execute %s, parameters %s", show(a[i]).c_str(), vecstr(v).c_str()));
		if (a[i].f != t[i].f || a[i].x != t[i].x)
			throw Violation("text-differs", strf("call %d is %s in the AST and %s in the text, parameters %s", (int)i, show(a[i]).c_str(), show({ t[i].f, t[i].x }).c_str(), vecstr(v).c_str()));
	}
}

// Executes text for v; the call of the MPI run time is modelled for one process.
static std::vector<TCall> text_trace(const TProg &g, const std::vector<std::string> &pn, const Vec &v, Z W, bool fortran, long *cmod)
{
	TInterp T;
	T.fortran = fortran;
	T.window = W;
	T.maxsteps = 400000;
	for (size_t i = 0; i < v.size(); i++) T.env.push_back({ pn[i], v[i] });
	T.env.push_back({ "nprocs", 1 });
	T.env.push_back({ "my_rank", 0 });
	T.on_call = [](TInterp &t, const TStmt &s) {
		if (s.s != "polyrt_loop_dist") return;
		static const char *const want[] = { "_lb_dist", "_ub_dist", "nprocs", "my_rank", "lbp", "ubp" };
		if (s.args.size() != 6) throw Violation("syntax", "polyrt_loop_dist with a wrong number of arguments");
		for (int i = 0; i < 6; i++)
			if (s.args[i]->k != TExpr::VAR || s.args[i]->s != want[i] || (s.argname[i] == "&") != (i >= 4))
				throw Violation("syntax", strf("argument %d of polyrt_loop_dist", i));
		for (int i = 0; i < 2; i++) {
			Z *p = t.find(want[i]);
			if (!p) throw Violation("unbound", std::string(want[i]) + " has no value");
			Z x = *p, *q = t.find(want[i + 4]);
			if (q) *q = x; else t.env.push_back({ want[i + 4], x });
		}
	};
	T.exec(g.body);
	if (cmod) *cmod += T.neg_ineq_mod;
	return T.calls;
}

// ------------------------------------------------- parallel annotations

static char *dup(const std::string &s) { return strdup(s.c_str()); }
static void annotate(Src &s, struct clast_stmt *t, int &n)
{
	for (; t; t = t->next) {
		if (CLAST_STMT_IS_A(t, stmt_for)) {
			struct clast_for *f = (struct clast_for *)t;
			if (s.chance(3, 5)) {
				static const int fl[] = { CLAST_PARALLEL_OMP, CLAST_PARALLEL_VEC, CLAST_PARALLEL_MPI, CLAST_PARALLEL_OMP | CLAST_PARALLEL_USER };
				f->parallel = s.chance(1, 3) ? s.range(1, 15) : fl[s.pick(4)];
				if (s.chance(1, 3)) f->private_vars = dup(s.chance(1, 2) ? "lbv,ubv,t" : "q");
				if (s.chance(1, 3)) f->reduction_vars = dup(s.chance(1, 2) ? "+:sum" : "*:a,b");
				if (s.chance(1, 2) && (f->parallel & CLAST_PARALLEL_USER)) f->user_directive = dup("my directive for");
				n++;
			}
			if (s.chance(1, 4)) { f->time_var_name = dup(strf("t%d", (int)s.pick(3))); n++; }
			annotate(s, f->body, n);
		} else if (CLAST_STMT_IS_A(t, stmt_guard)) annotate(s, ((struct clast_guard *)t)->then, n);
		else if (CLAST_STMT_IS_A(t, stmt_block)) annotate(s, ((struct clast_block *)t)->body, n);
	}
}
static std::string squeeze(const std::string &s)
{
	std::string o;
	for (char c : s) if (!isspace((unsigned char)c)) o += c;
	return o;
}
// What has to stand around a loop with these annotations.
struct Ann { std::vector<std::string> before, after; bool lbp = false, lbv = false, mpi = false; };
static Ann expect_ann(struct clast_for *f)
{
	Ann a;
	bool omp = f->parallel & CLAST_PARALLEL_OMP, mpi = f->parallel & CLAST_PARALLEL_MPI, vec = f->parallel & CLAST_PARALLEL_VEC, usr = f->parallel & CLAST_PARALLEL_USER;
	std::string clauses;
	if (f->private_vars) clauses += std::string("private(") + f->private_vars + ")";
	if (f->reduction_vars) clauses += std::string("reduction(") + f->reduction_vars + ")";
	if (f->time_var_name) a.before.push_back(squeeze(strf("IF_TIME %s_start = cloog_util_rtclock ( ) )", f->time_var_name)));
	if (mpi) a.mpi = true;
	if (omp && !mpi && usr) a.before.push_back(squeeze("#pragma " + std::string(f->user_directive ? f->user_directive : "omp parallel for") + clauses));
	else if (omp) a.before.push_back(squeeze("#pragma omp parallel for" + clauses));
	else if (vec && !mpi) { a.before.push_back("#pragmaivdep"); a.before.push_back("#pragmavectoralways"); }
	a.lbp = omp || mpi;
	a.lbv = vec && !a.lbp;
	if (f->time_var_name) a.after.push_back(squeeze(strf("IF_TIME %s += cloog_util_rtclock ( ) - %s_start )", f->time_var_name, f->time_var_name)));
	return a;
}
static void collect_for(struct clast_stmt *t, std::vector<struct clast_for *> &v)
{
	for (; t; t = t->next) {
		if (CLAST_STMT_IS_A(t, stmt_for)) { v.push_back((struct clast_for *)t); collect_for(((struct clast_for *)t)->body, v); }
		else if (CLAST_STMT_IS_A(t, stmt_guard)) collect_for(((struct clast_guard *)t)->then, v);
		else if (CLAST_STMT_IS_A(t, stmt_block)) collect_for(((struct clast_block *)t)->body, v);
	}
}
static void check_ann(const std::vector<TStmt> &b, const std::vector<struct clast_for *> &fs, size_t &k)
{
	std::vector<std::string> pend, after;
	bool seen_call = false;
	auto flush_after = [&](const std::string &what) {
		if (!after.empty()) throw Violation("annotation", "missing '" + after[0] + "' after a loop, before " + what);
	};
	for (auto &s : b) {
		if (s.k == TStmt::PRAGMA) {
			std::string q = squeeze(s.s);
			if (!after.empty() && after[0] == q) { after.erase(after.begin()); continue; }
			pend.push_back(q);
			continue;
		}
		if (s.k == TStmt::ASS && (s.s == "lbp" || s.s == "ubp" || s.s == "lbv" || s.s == "ubv" || s.s == "_lb_dist" || s.s == "_ub_dist")) continue;
		if (s.k == TStmt::CALL && s.s == "polyrt_loop_dist") { seen_call = true; continue; }
		if (s.k == TStmt::FOR) {
			flush_after("a loop");
			if (k >= fs.size()) throw Violation("annotation", "more loops in the text than in the AST");
			struct clast_for *f = fs[k++];
			Ann a = expect_ann(f);
			if (s.s != f->iterator) throw Violation("annotation", "loops of the text and of the AST do not correspond");
			if (pend != a.before) {
				std::string w, g;
				for (auto &x : a.before) w += " " + x;
				for (auto &x : pend) g += " " + x;
				throw Violation("annotation", strf("loop %s (parallel=%d): expected '%s', found '%s'", f->iterator, f->parallel, w.c_str(), g.c_str()));
			}
			if (seen_call != a.mpi) throw Violation("annotation", strf("loop %s (parallel=%d): polyrt_loop_dist %s", f->iterator, f->parallel, seen_call ? "unexpected" : "missing"));
			const char *lb = a.lbp ? "lbp" : a.lbv ? "lbv" : nullptr, *ub = a.lbp ? "ubp" : a.lbv ? "ubv" : nullptr;
			auto isv = [](const TE &e, const char *n) { return e && e->k == TExpr::VAR && e->s == n; };
			if (lb && f->LB && !isv(s.lb, lb)) throw Violation("annotation", std::string("lower bound of an annotated loop is not ") + lb);
			if (ub && f->UB && !isv(s.ub, ub)) throw Violation("annotation", std::string("upper bound of an annotated loop is not ") + ub);
			pend.clear();
			seen_call = false;
			check_ann(s.body, fs, k);
			after = a.after;
			continue;
		}
		flush_after("a statement");
		if (!pend.empty()) throw Violation("annotation", "directive '" + pend[0] + "' is not followed by a loop");
		if (s.k == TStmt::IF || s.k == TStmt::BLOCK) check_ann(s.body, fs, k);
	}
	flush_after("the end of a block");
	if (!pend.empty()) throw Violation("annotation", "directive '" + pend[0] + "' is not followed by a loop");
}

enum { W_C = 3, W_F = 4, W_PAR = 6 };

static void text_case(Src &s, Result &r, int which)
{
	bool fortran = which == W_F || (which == W_PAR && s.chance(1, 10));
	Lib lib;
	struct clast_stmt *root;
	std::vector<std::string> pn;
	std::vector<Vec> par;
	Prob p;
	Opt o;
	bool hand = s.chance(2, 5);
	Z W = 0;
	if (hand) {
		r.labels.insert("hand-built-ast");
		lib.opt->language = fortran ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
		AstGen g(s, lib.state, fortran);
		root = nullptr;
		g.fill(&root, 0);
		pn = { PN[0], PN[1] };
		for (int i = 0; i < 4; i++) par.push_back({ s.sgn(6), s.sgn(9) });
		// scheduled for no freeing order problems: statements are copied
	} else {
		GenCfg cfg;
		cfg.allow_unbounded = which == W_C;
		cfg.allow_multi = true;
		cfg.union_ctx = true;
		cfg.maxdim = 4;
		cfg.maxpar = 3;
		cfg.fortran = fortran;
		p = gen_problem(s, cfg);
		o = gen_options(s, p);
		if (fortran) o.block = 0;
		par = gen_params(s, p, 3);
		W = p.window;
		std::string text = cloog_text(p);
		r.show(render_case(text, o, par));
		label_problem(p, r);
		label_opt(o, r);
		apply_options(o, lib.opt);
		CloogInput *in = load_text(lib, text);
		root = cloog_clast_create_from_input(in, lib.opt);
		if ((lib.opt->language == CLOOG_LANGUAGE_FORTRAN) != fortran) throw Violation("language", "the language of the input file is not the language of the output");
		pn = clast_param_names(root);
	}
	label_ast(root, r);
	int nann = 0;
	if (which == W_PAR) annotate(s, root, nann);
	// bounded problems may still have unbounded loops after -f with hulls (finding F-hull); Fortran cannot express them
	if (fortran) {
		std::vector<struct clast_for *> fs;
		collect_for(root, fs);
		for (auto f : fs) if (!f->LB || !f->UB) throw Inconclusive("unbounded loop in Fortran");
	}
	std::string code = pprint_to_string(root, lib.opt, s.chance(1, 5) ? s.range(1, 6) : 0);
	r.show(r.render + "---- generated code ----\n" + code + "parameters:" + [&]() { std::string t; for (auto &v : par) t += " " + vecstr(v); return t; }() + "\n");
	r.hash = hash_str(code, hash_str(o.str()));
	TProg g = fortran ? parse_fortran(code) : parse_c(code);
	if (which == W_PAR && !fortran) {
		std::vector<struct clast_for *> fs;
		collect_for(root, fs);
		size_t k = 0;
		check_ann(g.body, fs, k);
		if (k != fs.size()) throw Violation("annotation", "fewer loops in the text than in the AST");
	}
	long pts = 0, cmod = 0;
	std::string lim;
	int done = 0;
	for (auto &v : par) {
		try {
			auto a = ast_trace(root, pn, v, W);
			auto t = text_trace(g, pn, v, W, fortran, &cmod);
			compare(a, t, v);
			pts += t.size();
			done++;
			if (hand) continue;
			std::vector<Event> ev;
			for (auto &c : t) {
				if (c.f[0] != 'S') throw Violation("call", "unknown call " + c.f);
				Event e;
				e.stmt = atoi(c.f.c_str() + 1) - 1;
				e.x = c.x;
				ev.push_back(e);
			}
			try { check_exact(p, v, ev, W, nullptr); } catch (Inconclusive &) { }
		} catch (Inconclusive &e) { lim = e.what(); }
		catch (Overflow &e) { lim = "overflow"; }
		catch (Violation &e) {
			bool ex = r.labels.count("existential") || r.labels.count("scat-existential");
			if (e.kind == "unbounded" && ex && (o.f != 1 || !o.fs.empty())) { lim = "F-hull: hull of a union with existentials is unbounded (-f)"; continue; }
			throw;
		}
	}
	if (cmod) r.labels.insert("cmod-guard-on-negative");
	r.units = pts;
	cloog_clast_free(root);
	if (!done && !par.empty()) throw Inconclusive(lim);
	if (pts < 2 || (which == W_PAR && !nann)) r.st = ST_TRIVIAL;
}

// cmod: a guard that compares a remainder by inequality reads a C (Fortran)
// remainder, which is negative for negative operands, as a residue.
static bool known_cmod(bool fortran)
{
	std::string text = std::string(fortran ? "f" : "c") + "\n0 2 0 0 0 0\n0\n1\n1\n4 4 1 0 1 0\n1 1 0 4\n1 -1 0 4\n1 1 -3 0\n1 -1 3 1\n0 0 0\n0\n0\n";
	Lib lib;
	struct clast_stmt *root = cloog_clast_create_from_input(load_text(lib, text), lib.opt);
	auto pn = clast_param_names(root);
	std::string code = pprint_to_string(root, lib.opt, 0);
	TProg g = fortran ? parse_fortran(code) : parse_c(code);
	auto a = ast_trace(root, pn, {}, 0);
	TInterp T;
	T.fortran = fortran;
	T.ineq_residue = false;
	T.exec(g.body);
	bool bad = false;
	try { compare(a, T.calls, {}); } catch (Violation &) { bad = true; }
	return bad;
}
static RegKnown k03("C03 cmod", []() { return known_cmod(false); });
static RegKnown k04("C04 cmod", []() { return known_cmod(true); });
static RegKnown k06("C06 cmod", []() { return known_cmod(false); });

static RegProp c03({ "C03", "one case = C text printed for a generated problem x options or for a random hand-built AST, parsed by C rules and executed for up to 4 parameter vectors; calls compared with the AST and with the domains; non-trivial = distinct text with at least 2 executed calls",
	[](Src &s, Result &r) { text_case(s, r, W_C); }, 6, false, 20000, 400000 });
static RegProp c04({ "C04", "as C03 for the Fortran text (parsed by Fortran rules); non-trivial = distinct text with at least 2 executed calls",
	[](Src &s, Result &r) { text_case(s, r, W_F); }, 6, false, 20000, 400000 });
static RegProp c06({ "C06", "one case = AST (generated or hand-built) whose loops get random parallel flags, clauses, user directives and timers; the text is parsed, its directives compared loop by loop and its execution compared with the AST; non-trivial = distinct text with at least one annotated loop and 2 executed calls",
	[](Src &s, Result &r) { text_case(s, r, W_PAR); }, 6, false, 20000, 400000 });
}
std::vector<TCall> text_trace_c(const TProg &g, const std::vector<std::string> &pn, const Vec &v) { long c = 0; return text_trace(g, pn, v, 0, false, &c); }
