// C05 whole programs (-callable, -compilable), C13 the cloog command.
#include "ctext.h"
#include "proc.h"
#include <sys/wait.h>

static std::vector<std::vector<std::string>> opt_args(const Opt &o)
{
	std::vector<std::vector<std::string>> a;
	auto add = [&](const char *n, int v) { a.push_back({ n, strf("%d", v) }); };
	Opt d;
	if (o.l != d.l) add("-l", o.l);
	if (o.f != d.f) add("-f", o.f);
	if (o.stop != d.stop) add("-stop", o.stop);
	if (o.strides != d.strides) add("-strides", o.strides);
	if (o.sh != d.sh) add("-sh", o.sh);
	if (o.first_unroll != d.first_unroll) add("-first-unroll", o.first_unroll);
	if (o.esp != d.esp) add("-esp", o.esp);
	if (o.fsp != d.fsp) add("-fsp", o.fsp);
	if (o.otl != d.otl) add("-otl", o.otl);
	if (o.block != d.block) add("-block", o.block);
	if (o.compilable) add("-compilable", o.compilable);
	if (o.callable) add("-callable", o.callable);
	if (o.noscalars) a.push_back({ "-noscalars" });
	if (o.noblocks) a.push_back({ "-noblocks" });
	if (o.nosimplify) a.push_back({ "-nosimplify" });
	return a;
}
static std::vector<std::string> flatten(const std::vector<std::vector<std::string>> &a)
{
	std::vector<std::string> v;
	for (auto &x : a) v.insert(v.end(), x.begin(), x.end());
	return v;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += " " + x; return s; }

// Whole program text through the library.
static std::string program_text(Lib &lib, const std::string &text)
{
	std::string path = scratch_dir() + "/prog.cloog";
	write_file(path, text);
	FILE *f = fopen(path.c_str(), "r");
	CloogProgram *p = cloog_program_read(f, lib.opt);
	fclose(f);
	p = cloog_program_generate(p, lib.opt);
	char *buf = nullptr;
	size_t n = 0;
	FILE *m = open_memstream(&buf, &n);
	lib.opt->name = (char *)"prog.cloog";
	cloog_program_pprint(m, p, lib.opt);
	fclose(m);
	cloog_program_free(p);
	std::string s(buf, n);
	free(buf);
	return s;
}
static std::string skip_line(const std::string &s) { size_t e = s.find('\n'); return e == std::string::npos ? s : s.substr(e + 1); }

static bool has_mod_ineq(const std::string &code)
{
	for (size_t i = 0; (i = code.find('%', i)) != std::string::npos; i++) {
		size_t j = i + 1;
		while (j < code.size() && isdigit((unsigned char)code[j])) j++;
		if (j > i + 1 && (code.compare(j, 4, " <= ") == 0 || code.compare(j, 4, " >= ") == 0)) return true;
	}
	return false;
}

static void prog_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxdim = 4;
	cfg.union_ctx = true;
	cfg.maxpar = 3;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	o.fs.clear();
	o.ls.clear();
	o.save_domains = 0;
	bool comp = s.chance(1, 3);
	std::vector<Vec> par;
	if (comp) {
		o.compilable = s.range(1, 9);
		Vec v(p.npar, Z(o.compilable));
		if (ctx_contains(p, v)) par.push_back(v);
	} else {
		o.callable = 1;
		par = gen_params(s, p, 4);
	}
	std::string text = cloog_text(p);
	bool cli = s.chance(1, 2);
	r.labels.insert(cli ? "route-command" : "route-library");
	r.labels.insert(comp ? "compilable" : "callable");
	r.show(render_case(text, o, par) + (comp ? "-compilable\n" : "-callable\n"));
	r.hash = hash_str(o.str() + (comp ? strf("p%d", o.compilable) : "c"), hash_str(text));
	label_problem(p, r);
	if (par.empty()) { r.st = ST_TRIVIAL; return; }
	std::string code;
	if (cli) {
		auto a = flatten(opt_args(o));
		a.insert(a.begin(), cli_path());
		a.push_back("stdin");
		Run c = run_cmd(a, text, 6);
		if (c.timeout) throw Inconclusive("cloog takes too long");
		if (!c.ok()) throw Violation("command", "the cloog command fails: " + c.err.substr(0, 300));
		code = c.out;
	} else {
		Lib lib;
		apply_options(o, lib.opt);
		code = program_text(lib, text);
	}
	r.show(r.render + "---- generated program ----\n" + code);
	if (has_mod_ineq(code)) { r.st = ST_TRIVIAL; r.labels.insert("skipped-cmod"); return; }
	std::string d = scratch_dir();
	std::string src = d + "/p.c", drv = d + "/d.c", exe = d + "/p.exe";
	write_file(src, code);
	std::vector<std::string> cc = { "gcc", "-O0", "-pipe", "-Wno-unused", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-o", exe, src };
	if (!comp) {
		std::string t = "#include <stdio.h>\n#include <stdlib.h>\nextern void test();\nstatic long n;\nvoid hash(int v) { printf(\"%d\\n\", v); if (++n > 300000) { printf(\"over\\n\"); exit(0); } }\nint main(void) {\n";
		for (auto &v : par) {
			t += "printf(\"call\\n\"); test(";
			for (size_t i = 0; i < v.size(); i++) t += (i ? "," : "") + zstr(v[i]);
			t += ");\n";
		}
		t += "return 0; }\n";
		write_file(drv, t);
		cc.push_back(drv);
	} else
		cc.push_back("-lm");
	Run b = run_cmd(cc, "", 30);
	if (b.timeout) throw Inconclusive("gcc takes too long");
	if (!b.ok()) throw Violation("compile", "the generated program does not compile: " + b.err.substr(0, 600));
	Run x = run_cmd({ exe }, "", 8);
	unlink(exe.c_str());
	if (x.timeout) throw Inconclusive("generated program takes too long");
	if (!x.ok()) throw Violation("run", strf("the generated program ends with status %d", x.status));
	long pts = 0;
	size_t pos = 0;
	auto line = [&](std::string &l) {
		if (pos >= x.out.size()) return false;
		size_t e = x.out.find('\n', pos);
		if (e == std::string::npos) e = x.out.size();
		l = x.out.substr(pos, e - pos);
		pos = e + 1;
		return true;
	};
	std::string l;
	if (x.out.find("over\n") != std::string::npos) throw Inconclusive("too many instances");
	if (comp) {
		std::vector<Event> ev;
		long total = -1;
		while (line(l)) {
			if (sscanf(l.c_str(), "Number of integral points: %ld.", &total) == 1) continue;
			if (l[0] != 'S') throw Violation("output", "unexpected output line '" + l + "'");
			Event e;
			const char *q = l.c_str() + 1;
			char *en;
			e.stmt = (int)strtol(q, &en, 10) - 1;
			for (q = en; *q; q = en) { long v = strtol(q, &en, 10); if (en == q) throw Violation("output", "bad line '" + l + "'"); e.x.push_back(v); }
			ev.push_back(e);
		}
		// statements without iterators are counted but not printed
		size_t zero = 0;
		for (size_t k = 0; k < p.st.size(); k++) if (p.st[k].dom.n == 0 && dom_contains(p.st[k].dom, {}, par[0])) {
			size_t m = p.nscat ? dates(p, p.st[k], {}, par[0], 0).size() : 1;
			for (size_t i = 0; i < m; i++) { Event e; e.stmt = (int)k; zero++; ev.push_back(e); }
		}
		if (total != (long)ev.size()) throw Violation("total", strf("%ld integral points announced, %zu executed", total, ev.size()));
		check_exact(p, par[0], ev, 0, &pts);
		ev.resize(ev.size() - zero);
		if (p.nscat && o.l < 0) check_order(p, par[0], ev, 1000, o.f != 1);
	} else {
		size_t k = 0;
		bool more = line(l);
		for (; k < par.size(); k++) {
			if (!more || l != "call") throw Violation("output", "bad output of the driver");
			std::vector<Event> ev;
			bool empty_marker = false;
			while ((more = line(l)) && l != "call") {
				Event e;
				int st = atoi(l.c_str());
				if (st == 0) { empty_marker = true; continue; }
				e.stmt = st - 1;
				if (e.stmt < 0 || e.stmt >= (int)p.st.size()) throw Violation("output", "unknown statement " + l);
				for (int i = 0; i < p.st[e.stmt].dom.n; i++) { if (!line(l)) throw Violation("output", "truncated output"); e.x.push_back(atol(l.c_str())); }
				ev.push_back(e);
			}
			if (empty_marker && !ev.empty()) throw Violation("output", "marker of the empty program in a program that is not empty");
			check_exact(p, par[k], ev, 0, &pts);
			if (p.nscat && o.l < 0) check_order(p, par[k], ev, 1000, o.f != 1);
		}
	}
	r.units = pts;
	if (pts < 2) r.st = ST_TRIVIAL;
}

static void cli_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.allow_unbounded = true;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.fortran = s.chance(1, 6);
	if (cfg.fortran) cfg.allow_unbounded = false;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	o.fs.clear();
	o.ls.clear();
	o.save_domains = 0;
	if (s.chance(1, 8)) o.stop = s.range(0, p.nscat + p.maxdim() + 1);
	if (s.chance(1, 10)) o.callable = 1;
	else if (s.chance(1, 10)) o.compilable = s.range(1, 20);
	auto groups = opt_args(o);
	// explicit defaults and overridden earlier occurrences
	bool loopo = s.chance(1, 15);
	if (loopo) { o.esp = 0; o.block = 1; }
	std::vector<std::vector<std::string>> pre;
	auto pick_dup = [&](const char *n, int cur) {
		if (!s.chance(1, 6)) return;
		pre.push_back({ n, strf("%d", s.range(0, 3)) });
		bool have = false;
		for (auto &g : groups) have |= g[0] == n;
		if (!have) groups.push_back({ n, strf("%d", cur) });
	};
	pick_dup("-l", o.l);
	pick_dup("-f", o.f);
	pick_dup("-strides", o.strides);
	pick_dup("-otl", o.otl);
	pick_dup("-fsp", o.fsp);
	pick_dup("-sh", o.sh);
	pick_dup("-stop", o.stop);
	pick_dup("-first-unroll", o.first_unroll);
	if (loopo) {
		std::vector<std::vector<std::string>> g2;
		for (auto &g : groups) if (g[0] != "-esp" && g[0] != "-block") g2.push_back(g);
		groups = g2;
		groups.push_back({ "-loopo" });
	}
	bool unknown = s.chance(1, 10), quiet = s.chance(1, 4), leaks = s.chance(1, 6), structure = s.chance(1, 10);
	if (unknown) groups.push_back({ s.chance(1, 2) ? "-zorglub" : "--nothing" });
	if (quiet) groups.push_back({ s.chance(1, 2) ? "-q" : "--quiet" });
	if (leaks) groups.push_back({ "-leaks" });
	for (size_t i = groups.size(); i > 1; i--) std::swap(groups[i - 1], groups[s.pick((uint32_t)i)]);
	std::string text = cloog_text(p, &s);
	std::string d = scratch_dir();
	// input and output routes; the input file may stand anywhere among the options
	int in = s.pick(2), out = s.pick(3);
	std::string path = d + "/in put.cloog", ofile = d + "/result.c";
	groups.insert(groups.begin() + s.pick((uint32_t)groups.size() + 1), std::vector<std::string>{ in ? path : "stdin" });
	if (out) groups.insert(groups.begin() + s.pick((uint32_t)groups.size() + 1), std::vector<std::string>{ "-o", out == 1 ? ofile : "stdout" });
	if (structure) groups.push_back({ s.chance(1, 2) ? "-struct" : "-structure" });
	// command lines that must be refused
	int bad = s.chance(1, 12) ? s.range(1, 5) : 0;
	static const char *const valopt[] = { "-l", "-f", "-stop", "-strides", "-sh", "-first-unroll", "-esp", "-fsp", "-otl", "-block", "-compilable", "-callable" };
	static const char *const badval[] = { "x", "", "1x", "--", "-", "0x1", "1 2", "one", "stdin", "-o", "1.5" };
	auto at = [&](const std::vector<std::string> &g) { groups.insert(groups.begin() + s.pick((uint32_t)groups.size() + 1), g); };
	switch (bad) {
	case 1: at({ valopt[s.pick(12)], badval[s.pick(11)] }); break;
	case 2: groups.push_back({ s.chance(1, 6) ? "-o" : valopt[s.pick(12)] }); break;
	case 3: at({ s.chance(1, 2) ? path : "stdin" }); break;
	case 4: for (auto &g : groups) if (g.size() == 1 && (g[0] == path || g[0] == "stdin")) g[0] = d + "/no such file"; break;
	case 5: at({ "-o", d + "/no/such/dir.c" }); break;
	}
	auto a = flatten(pre), b = flatten(groups);
	a.insert(a.end(), b.begin(), b.end());
	r.show("command: cloog" + join(a) + "\n" + text);
	r.hash = hash_str(join(b), hash_str(text));
	label_problem(p, r);
	if (unknown) r.labels.insert("unknown-option");
	r.labels.insert(in ? "input-file" : "input-stdin");
	r.labels.insert(out == 1 ? "output-file" : "output-stdout");
	if (bad) {
		r.labels.insert("refused");
		write_file(path, text);
		a.insert(a.begin(), cli_path());
		Run c = run_cmd(a, in ? "" : text, 8);
		if (c.timeout) throw Violation("refused", "command line in error does not end");
		if (!WIFEXITED(c.status) || WEXITSTATUS(c.status) == 0) throw Violation("refused", strf("command line in error ends with status %d", c.status));
		if (c.err.find("[CLooG] ERROR: ") == std::string::npos) throw Violation("refused", "no error message: " + c.err.substr(0, 200));
		if (!c.out.empty()) throw Violation("refused", "output in spite of an error");
		r.units = 1;
		return;
	}
	// expected text through the library
	std::string want;
	{
		Lib lib;
		apply_options(o, lib.opt);
		want = program_text(lib, text);
	}
	write_file(path, text);
	unlink(ofile.c_str());
	a.insert(a.begin(), cli_path());
	Run c = run_cmd(a, in ? "" : text, 8);
	if (c.timeout) throw Inconclusive("cloog takes too long");
	if (!c.ok()) throw Violation("command", strf("the command fails (status %d): ", c.status) + c.err.substr(0, 300));
	std::string got = out == 1 ? read_file(ofile) : c.out;
	if (out == 1 && !structure && !c.out.empty()) throw Violation("stdout", "output on stdout although -o names a file");
	if (structure && out != 1) {
		// the structure comes first; the program is the tail
		size_t k = got.find(cfg.fortran ? "! Generated from" : "/* Generated from");
		if (k == std::string::npos || k == 0) throw Violation("structure", "no structure is printed with -struct");
		got = got.substr(k);
	} else if (structure && c.out.empty()) throw Violation("structure", "no structure is printed with -struct");
	std::string first = got.substr(0, got.find('\n'));
	if (first.find(std::string("Generated from ") + (in ? path : "stdin") + " by ") == std::string::npos)
		throw Violation("header", "unexpected first line: " + first);
	got = skip_line(got);
	want = skip_line(want);
	if (leaks) {
		// four lines of statistics follow
		size_t k = got.find("/* Domains    :");
		if (k == std::string::npos) throw Violation("leaks", "no allocation statistics with -leaks");
		std::string st = got.substr(k);
		got = got.substr(0, k);
		int al, fr, mx, n = 0;
		for (size_t q = 0; (q = st.find("allocated=", q)) != std::string::npos; q++, n++) {
			if (sscanf(st.c_str() + q, "allocated=%d, freed=%d, max=%d.", &al, &fr, &mx) != 3) throw Violation("leaks", "unreadable statistics");
			if (al != fr) throw Violation("leaks", strf("%d structures allocated, %d freed", al, fr));
			if (mx > al || (al > 0 && mx < 1)) throw Violation("leaks", strf("maximum %d of %d allocated structures", mx, al));
		}
		if (n != 4) throw Violation("leaks", "incomplete statistics");
	}
	if (got != want) {
		size_t i = 0;
		while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
		throw Violation("cli-differs", strf("output of the command differs from the library's at byte %zu: '%s' instead of '%s'", i, got.substr(i, 60).c_str(), want.substr(i, 60).c_str()));
	}
	bool warned = c.err.find("unknown -") != std::string::npos;
	if (unknown && !quiet && !warned) throw Violation("warning", "no warning about an unknown option");
	if (!unknown && warned) throw Violation("warning", "warning about a known option: " + c.err.substr(0, 200));
	if (quiet && !unknown && !c.err.empty()) throw Violation("stderr", "message although -q is given: " + c.err.substr(0, 300));
	if (c.err.find("ERROR") != std::string::npos || c.err.find("internal problem") != std::string::npos) throw Violation("stderr", "unexpected message: " + c.err.substr(0, 300));
	r.units = (long)got.size();
	if (want.size() < 20) r.st = ST_TRIVIAL;
}

static RegProp c05({ "C05", "one case = complete program (-callable or -compilable, by command or library) for a generated problem x options, compiled with gcc and run; executed instances compared with the domains (and dates); non-trivial = distinct case with at least 2 executed instances",
	prog_case, 30, false, 3000, 60000 });
static RegProp c13({ "C13", "one case = cloog command line (options in random order, repeated, unknown, -o, stdin, -leaks, -struct) on a generated input, compared with the text the library produces for the same options; non-trivial = distinct command with a program text of at least 20 bytes",
	cli_case, 20, false, 5000, 100000 });
