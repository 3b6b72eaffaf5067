// C18: the documented effect of the options on the shape of the generated code.
#include "problem.h"
#include "proc.h"
Z cint(cloog_int_t v);

static bool plain_affine(struct clast_expr *e)
{
	switch (e->type) {
	case clast_expr_name: return true;
	case clast_expr_term: { struct clast_term *t = (struct clast_term *)e; return !t->var || plain_affine(t->var); }
	case clast_expr_red: {
		struct clast_reduction *r = (struct clast_reduction *)e;
		if (r->type != clast_red_sum) return false;
		for (int i = 0; i < r->n; i++) if (!plain_affine(r->elts[i])) return false;
		return true;
	}
	default: return false;
	}
}
static bool number(struct clast_expr *e, Z &v)
{
	if (!e || e->type != clast_expr_term || ((struct clast_term *)e)->var) return false;
	v = cint(((struct clast_term *)e)->val);
	return true;
}
struct Shape {
	const Opt &o;
	CloogNames *names;
	int nlev;
	std::vector<int> bound;          // levels bound by enclosing loops and assignments
	std::vector<int> active;         // levels of the enclosing loops
	std::map<int, int> copies;       // statement number -> user statements
	int loops = 0, asses = 0, users = 0, blocks = 0;
	bool scalars;
	int level(const char *n)
	{
		for (int l = 1; l <= nlev; l++) if (!strcmp(cloog_names_name_at_level(names, l), n)) return l;
		throw Violation("iterator", strf("'%s' is not the name of a level", n));
	}
	void bind(const char *n)
	{
		int l = level(n);
		if (!active.empty() && active.back() >= l) throw Violation("nesting", strf("'%s' is set inside the loop '%s'", n, cloog_names_name_at_level(names, active.back())));
		bound.push_back(l);
	}
	void walk(struct clast_stmt *s, bool inblock)
	{
		size_t mark = bound.size();
		bool first = true;
		for (; s; s = s->next, first = false) {
			if (CLAST_STMT_IS_A(s, stmt_ass)) {
				struct clast_assignment *a = (struct clast_assignment *)s;
				asses++;
				// what follows an assignment is in its scope
				bind(a->LHS);
				if (!o.otl && o.first_unroll < 0) throw Violation("otl", strf("'%s' is assigned although -otl is 0", a->LHS));
				if (o.block && !(inblock && first)) throw Violation("block", strf("the assignment of '%s' does not start a block although -block is 1", a->LHS));
				bool guarded = s->next && CLAST_STMT_IS_A(s->next, stmt_guard);
				if (o.esp && bound.back() >= o.fsp && plain_affine(a->RHS) && !guarded) throw Violation("spread", strf("the value of '%s' is not spread", a->LHS));
			} else if (CLAST_STMT_IS_A(s, stmt_for)) {
				struct clast_for *f = (struct clast_for *)s;
				loops++;
				std::vector<int> keep = bound;
				bind(f->iterator);
				Z st = cint(f->stride), a, b;
				if (o.strides ? st < 1 : st != 1) throw Violation("stride", strf("loop '%s' has stride %s", f->iterator, zstr(st).c_str()));
				if (o.otl && f->LB && f->UB && clast_expr_equal(f->LB, f->UB)) throw Violation("otl", strf("loop '%s' has the same lower and upper bound", f->iterator));
				if (o.first_unroll >= 0 && !scalars && bound.back() >= o.first_unroll && number(f->LB, a) && number(f->UB, b) && a < b)
					throw Violation("unroll", strf("loop '%s' has constant bounds and is not unrolled", f->iterator));
				active.push_back(bound.back());
				walk(f->body, false);
				active.pop_back();
				bound = keep;
			} else if (CLAST_STMT_IS_A(s, stmt_guard)) {
				std::vector<int> keep = bound;
				walk(((struct clast_guard *)s)->then, false);
				bound = keep;
			} else if (CLAST_STMT_IS_A(s, stmt_block)) {
				blocks++;
				if (!o.block) throw Violation("block", "there is a block although -block is 0");
				std::vector<int> keep = bound;
				walk(((struct clast_block *)s)->body, true);
				bound = keep;
			} else if (CLAST_STMT_IS_A(s, stmt_user)) {
				struct clast_user_stmt *u = (struct clast_user_stmt *)s;
				users++;
				copies[u->statement->number]++;
				int n = names->nb_scattering;
				for (struct clast_stmt *t = u->substitutions; t; t = t->next) n++;
				for (int l = 1; l < o.fsp && l <= n; l++)
					if (std::find(bound.begin(), bound.end(), l) == bound.end()) throw Violation("first-level", strf("'%s' is not set around S%d, -fsp is %d", cloog_names_name_at_level(names, l), u->statement->number, o.fsp));
			}
		}
		bound.resize(std::min(mark, bound.size()));
	}
};
static void shape_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.maxstmt = 5;
	cfg.union_ctx = true;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	if (s.chance(1, 2)) o.fsp = s.range(1, p.nscat + p.maxdim() + 1);
	if (s.chance(1, 3)) o.first_unroll = s.range(1, p.nscat + p.maxdim());
	if (s.chance(1, 3)) { o.f = -1; o.l = -1; }
	if (s.chance(1, 3)) o.block = 1;
	std::string text = cloog_text(p);
	r.show(render_case(text, o, {}));
	r.hash = hash_str(o.str(), hash_str(text));
	label_problem(p, r);
	label_opt(o, r);
	Lib lib;
	apply_options(o, lib.opt);
	struct clast_stmt *root = cloog_clast_create_from_input(load_text(lib, text), lib.opt);
	r.show(r.render + "---- generated code ----\n" + pprint_to_string(root, lib.opt));
	CloogNames *n = ((struct clast_root *)root)->names;
	Shape sh { o, n, n->nb_scattering + n->nb_iterators, {}, {} };
	sh.scalars = n->nb_scalars > 0;
	sh.walk(root->next, false);
	if (sh.blocks) r.labels.insert("has-block");
	if (sh.asses) r.labels.insert("has-assignment");
	cloog_clast_free(root);
	r.units = sh.loops + sh.asses;
	if (sh.users < 1 || sh.loops + sh.asses < 1) r.st = ST_TRIVIAL;
}
static RegProp c18({ "C18", "one case = AST of a generated problem x options, every node checked against the documented effect of the options; non-trivial = distinct case with at least one loop or assignment around a user statement",
	shape_case, 20, false, 6000, 200000 });
