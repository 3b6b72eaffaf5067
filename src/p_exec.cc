// C01 exactly-once, C02 order.
#include "problem.h"

std::string render_case(const std::string &text, const Opt &o, const std::vector<Vec> &par)
{
	std::string s = "options:" + o.str() + "\nparameters tried:";
	for (auto &v : par) s += " " + vecstr(v);
	return s + "\n" + text;
}

void label_ast(struct clast_stmt *root, Result &r)
{
	AstStats a;
	ast_stats(root, a);
	if (a.stride) r.labels.insert("ast-stride");
	if (a.mod) r.labels.insert("ast-mod");
	if (a.fdiv) r.labels.insert("ast-div");
	if (a.minmax) r.labels.insert("ast-minmax");
	if (a.guards) r.labels.insert("ast-guard");
	if (a.asses) r.labels.insert("ast-assignment");
	if (a.depth >= 3) r.labels.insert("ast-depth3");
	if (a.fors > (int)0) r.labels.insert("ast-loop");
}

void label_opt(const Opt &o, Result &r)
{
	if (o.is_default()) r.labels.insert("opt-default");
	if (o.strides) r.labels.insert("opt-strides");
	if (o.first_unroll > 0) r.labels.insert("opt-unroll");
	if (o.sh) r.labels.insert("opt-sh");
	if (!o.otl) r.labels.insert("opt-otl0");
	if (!o.esp) r.labels.insert("opt-esp0");
	if (o.l != -1 || o.f != 1) r.labels.insert("opt-l-f");
	if (!o.fs.empty()) r.labels.insert("opt-fs-ls");
}

static void exec_case(Src &s, Result &r, int which)
{
	GenCfg cfg;
	cfg.maxstmt = 8;
	cfg.maxdim = 6;
	cfg.maxpar = 4;
	cfg.maxscat = 5;
	cfg.allow_unbounded = true;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	if (getenv("VH_NOMULTI")) cfg.allow_multi = false;
	if (getenv("VH_BOUNDED")) cfg.allow_unbounded = false;
	if (getenv("VH_NOLOCALS")) cfg.locals = false;
	if (getenv("VH_NOUCTX")) cfg.union_ctx = false;
	if (which == 2) cfg.need_scat = true;   // without scattering the order is free
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	// Control optimisation that stops at level l orders statements only
	// down to that level.  CLooG raises a smaller -l to the number of
	// scattering dimensions itself (unless -override is given), but not the
	// depths of single statements.
	int olev = 1000;
	if (which == 2) {
		auto fix = [&](int &l) {
			if (l < 0) return;
			if (p.nscat) l = std::max(l, p.nscat);
		};
		for (auto &l : o.ls) fix(l);
	}
	auto par = gen_params(s, p, 4);
	std::string text = cloog_text(p);
	r.show(render_case(text, o, par));
	r.hash = hash_str(o.str(), hash_str(text));
	label_problem(p, r);
	label_opt(o, r);
	Lib lib;
	apply_options(o, lib.opt);
	CloogInput *in = load_text(lib, text);
	struct clast_stmt *root = cloog_clast_create_from_input(in, lib.opt);
	label_ast(root, r);
	std::string code = pprint_to_string(root, lib.opt);
	r.show(r.render + "---- generated code ----\n" + code);
	auto pn = clast_param_names(root);
	Interp I;
	long pts = 0;
	std::string lim;
	int done = 0;
	for (auto &v : par) {
		try {
			auto ev = run_clast(root, pn, v, p.window, &I);
			if (which == 1) check_exact(p, v, ev, p.window, &pts);
			else {
				// only instances that belong to the problem have a date
				check_order(p, v, ev, olev, o.f != 1 || !o.fs.empty());
				pts += ev.size();
			}
			done++;
		} catch (Inconclusive &e) { lim = e.what(); }
		catch (Violation &e) {
			// Known finding F-hull: see DESIGN.md.
			bool ex = r.labels.count("existential") || r.labels.count("scat-existential");
			if (e.kind == "unbounded" && ex && (o.f != 1 || !o.fs.empty())) { lim = "F-hull: hull of a union with existentials is unbounded (-f)"; continue; }
			throw;
		}
	}
	r.units = pts;
	cloog_clast_free(root);
	if (!done && !par.empty()) throw Inconclusive(lim);
	if (par.empty()) { r.st = ST_TRIVIAL; r.labels.insert("context-not-sampled"); }
	else if (pts < 2) r.st = ST_TRIVIAL;
}

static RegProp c01({ "C01", "one case = generated polyhedral problem (context, unions of Z-polyhedra, scattering, names) x option set; the generated AST is executed for up to 4 parameter vectors; non-trivial = distinct problem+options with at least 2 statement instances compared",
	[](Src &s, Result &r) { exec_case(s, r, 1); }, 6, false, 16000, 300000 });
static RegProp c02({ "C02", "one case = generated problem x option set, AST executed for up to 4 parameter vectors and instance dates checked to be monotone; non-trivial = distinct case with at least 2 executed instances",
	[](Src &s, Result &r) { exec_case(s, r, 2); }, 6, false, 13000, 300000 });
