#include "ctext.h"
#include <ctype.h>

namespace {
struct Tok { int k; std::string s; int line, col; };     // k: 0 end, 1 ident, 2 number, 3 punct, 4 directive, 5 newline
struct Lexer {
	std::vector<Tok> t;
	Lexer(const std::string &x, bool nl)
	{
		size_t i = 0;
		int line = 1, indent = 0;
		bool bol = true;
		auto err = [&](const std::string &m) { throw Violation("syntax", strf("line %d: %s", line, m.c_str())); };
		while (i < x.size()) {
			char c = x[i];
			if (c == '\n') { if (nl) t.push_back({ 5, "\n", line, 0 }); line++; i++; bol = true; indent = 0; continue; }
			if (c == ' ' || c == '\t') { if (bol) indent++; i++; continue; }
			if (!nl && x.compare(i, 2, "/*") == 0) { size_t e = x.find("*/", i); if (e == std::string::npos) err("unterminated comment"); for (; i < e + 2; i++) line += x[i] == '\n'; continue; }
			if (nl && c == '!') { while (i < x.size() && x[i] != '\n') i++; continue; }
			if (c == '#' && !nl) {
				if (!bol) err("directive that does not start its line");
				size_t e = x.find('\n', i);
				if (e == std::string::npos) e = x.size();
				t.push_back({ 4, x.substr(i, e - i), line, indent });
				i = e;
				continue;
			}
			bol = false;
			if (isalpha((unsigned char)c) || c == '_') {
				size_t b = i;
				while (i < x.size() && (isalnum((unsigned char)x[i]) || x[i] == '_')) i++;
				t.push_back({ 1, x.substr(b, i - b), line, indent });
				continue;
			}
			if (isdigit((unsigned char)c)) {
				size_t b = i;
				while (i < x.size() && isdigit((unsigned char)x[i])) i++;
				if (i < x.size() && (isalpha((unsigned char)x[i]) || x[i] == '_')) err("number followed by a letter");
				t.push_back({ 2, x.substr(b, i - b), line, indent });
				continue;
			}
			if (nl && x.compare(i, 5, ".AND.") == 0) { t.push_back({ 3, "&&", line, indent }); i += 5; continue; }
			const char *two[] = { "<=", ">=", "==", "&&", "++", "+=", "--", "-=", "//", nullptr };
			bool m = false;
			for (int k = 0; two[k]; k++)
				if (x.compare(i, 2, two[k]) == 0) { t.push_back({ 3, two[k], line, indent }); i += 2; m = true; break; }
			if (m) continue;
			if (strchr("()+-*/%,;={}<>&", c)) { t.push_back({ 3, std::string(1, c), line, indent }); i++; continue; }
			err(strf("unexpected character '%c'", c));
		}
		t.push_back({ 0, "", line, 0 });
	}
};
struct Parser {
	std::vector<Tok> t;
	size_t p = 0;
	bool f;
	TProg *prog;
	Parser(const std::string &x, bool fortran) : t(Lexer(x, fortran).t), f(fortran) {}
	[[noreturn]] void err(const std::string &m) { throw Violation("syntax", strf("line %d near '%s': %s", t[p].line, t[p].s.c_str(), m.c_str())); }
	bool is(const char *s) { return (t[p].k == 3 || t[p].k == 1) && t[p].s == s; }
	bool eat(const char *s) { if (!is(s)) return false; p++; return true; }
	void need(const char *s) { if (!eat(s)) err(std::string("expected '") + s + "'"); }
	std::string ident() { if (t[p].k != 1) err("expected a name"); return t[p++].s; }
	TE mk(TExpr::K k) { TE e(new TExpr); e->k = k; return e; }
	TE prim()
	{
		if (t[p].k == 2) {
			TE e = mk(TExpr::NUM);
			if (!zparse(t[p].s.c_str(), e->v)) throw Inconclusive("number too large");
			p++;
			return e;
		}
		if (eat("(")) { TE e = expr(); need(")"); return e; }
		if (is("-") || is("+")) {
			bool neg = is("-");
			if (f && p > 0 && t[p - 1].k == 3 && strchr("+-*/", t[p - 1].s[0]) && t[p - 1].s.size() == 1) err("adjacent operators");
			p++;
			TE x = prim();
			if (!neg) return x;
			TE e = mk(TExpr::NEG);
			e->a.push_back(std::move(x));
			return e;
		}
		if (t[p].k == 1) {
			std::string n = ident();
			if (eat("(")) {
				TE e = mk(TExpr::CALL);
				e->s = n;
				if (!is(")")) do e->a.push_back(expr()); while (eat(","));
				need(")");
				return e;
			}
			TE e = mk(TExpr::VAR);
			e->s = n;
			return e;
		}
		err("expected an expression");
	}
	TE mul()
	{
		TE l = prim();
		while (is("*") || is("/") || is("%")) {
			if (f && is("%")) err("% in Fortran");
			TE e = mk(TExpr::BIN);
			e->s = t[p++].s;
			e->a.push_back(std::move(l));
			e->a.push_back(prim());
			l = std::move(e);
		}
		return l;
	}
	TE expr()
	{
		TE l = mul();
		while (is("+") || is("-")) {
			TE e = mk(TExpr::BIN);
			e->s = t[p++].s;
			e->a.push_back(std::move(l));
			e->a.push_back(mul());
			l = std::move(e);
		}
		return l;
	}
	static bool contains_mod(const TExpr &e)
	{
		if ((e.k == TExpr::BIN && e.s == "%") || (e.k == TExpr::CALL && e.s == "MOD")) return true;
		for (auto &x : e.a) if (contains_mod(*x)) return true;
		return false;
	}
	TE cmp()
	{
		TE l = expr();
		if (!is("<=") && !is(">=") && !is("==")) err("expected a comparison");
		TE e = mk(TExpr::BIN);
		e->s = t[p++].s;
		e->a.push_back(std::move(l));
		e->a.push_back(expr());
		if (e->s != "==" && contains_mod(*e)) prog->has_mod_ineq = true;
		return e;
	}
	void conds(TStmt &s)
	{
		need("(");
		// "(cmp)" or "((cmp) && (cmp))"; look for a nested condition
		size_t save = p;
		bool nested = false;
		if (is("(")) {
			try { p++; cmp(); need(")"); if (is("&&")) nested = true; } catch (Violation &) { nested = false; }
			p = save;
		}
		if (nested) {
			do { need("("); s.cond.push_back(cmp()); need(")"); } while (eat("&&"));
		} else
			s.cond.push_back(cmp());
		need(")");
	}
	void call_args(TStmt &s)
	{
		need("(");
		if (!is(")")) do {
			std::string an;
			if (t[p].k == 1 && t[p + 1].k == 3 && t[p + 1].s == "=") { an = t[p].s; p += 2; }
			if (eat("&")) { an = "&"; }
			s.args.push_back(expr());
			s.argname.push_back(an);
		} while (eat(","));
		need(")");
	}
	std::vector<TStmt> c_block(bool braces)
	{
		std::vector<TStmt> r;
		for (;;) {
			TStmt s;
			s.line = t[p].line;
			s.indent = t[p].col;
			if (t[p].k == 0) { if (braces) err("missing '}'"); return r; }
			if (is("}")) { if (!braces) err("unmatched '}'"); return r; }
			if (t[p].k == 4) { s.k = TStmt::PRAGMA; s.s = t[p++].s; r.push_back(std::move(s)); continue; }
			if (eat("{")) { s.k = TStmt::BLOCK; s.body = c_block(true); need("}"); r.push_back(std::move(s)); continue; }
			std::string n = ident();
			if (n == "for") {
				s.k = TStmt::FOR;
				need("(");
				std::string it;
				if (!is(";")) { it = ident(); need("="); s.lb = expr(); }
				need(";");
				if (!is(";")) { std::string i2 = ident(); if (it.empty()) it = i2; if (i2 != it) err("different loop iterators"); need("<="); s.ub = expr(); }
				need(";");
				std::string i3 = ident();
				if (it.empty()) it = i3;
				if (i3 != it) err("different loop iterators");
				if (!eat("++")) { need("+="); if (t[p].k != 2) err("expected a stride"); zparse(t[p++].s.c_str(), s.step); }
				need(")");
				need("{");
				s.s = it;
				s.body = c_block(true);
				need("}");
			} else if (n == "if") {
				s.k = TStmt::IF;
				conds(s);
				need("{");
				s.body = c_block(true);
				need("}");
			} else if (is("=")) {
				p++;
				s.k = TStmt::ASS;
				s.s = n;
				s.e = expr();
				need(";");
			} else if (n == "IF_TIME") {
				s.k = TStmt::PRAGMA;
				s.s = n;
				need("(");
				int d = 1;
				while (d) { if (t[p].k == 0) err("unbalanced"); if (is("(")) d++; if (is(")")) d--; s.s += " " + t[p++].s; }
				need(";");
			} else if (is("(")) {
				s.k = TStmt::CALL;
				s.s = n;
				call_args(s);
				need(";");
			} else if (n == "S0") {
				s.k = TStmt::CALL;
				s.s = n;
			} else
				err("expected a statement after '" + n + "'");
			r.push_back(std::move(s));
		}
	}
	void eol() { if (t[p].k != 5 && t[p].k != 0) err("expected end of line"); while (t[p].k == 5) p++; }
	std::vector<TStmt> f_block(bool top)
	{
		std::vector<TStmt> r;
		for (;;) {
			while (t[p].k == 5) p++;
			TStmt s;
			s.line = t[p].line;
			if (t[p].k == 0) { if (!top) err("missing END"); return r; }
			if (is("END")) { if (top) err("unmatched END"); return r; }
			if (eat("{")) { s.k = TStmt::BLOCK; err("brace in Fortran"); }
			std::string n = ident();
			if (n == "DO") {
				s.k = TStmt::FOR;
				s.s = ident();
				need("=");
				s.lb = expr();
				need(",");
				s.ub = expr();
				if (eat(",")) { if (t[p].k != 2) err("expected a stride"); zparse(t[p++].s.c_str(), s.step); }
				eol();
				s.body = f_block(false);
				need("END");
				need("DO");
				eol();
			} else if (n == "IF") {
				s.k = TStmt::IF;
				conds(s);
				need("THEN");
				eol();
				s.body = f_block(false);
				need("END");
				need("IF");
				eol();
			} else if (is("=")) {
				p++;
				s.k = TStmt::ASS;
				s.s = n;
				s.e = expr();
				eol();
			} else if (is("(")) {
				s.k = TStmt::CALL;
				s.s = n;
				call_args(s);
				eol();
			} else
				err("expected a statement");
			r.push_back(std::move(s));
		}
	}
};
}

TProg parse_c(const std::string &text)
{
	TProg g;
	Parser p(text, false);
	p.prog = &g;
	g.body = p.c_block(false);
	return g;
}
TProg parse_fortran(const std::string &text)
{
	TProg g;
	Parser p(text, true);
	p.prog = &g;
	g.body = p.f_block(true);
	return g;
}

Z *TInterp::find(const std::string &n)
{
	for (size_t i = env.size(); i-- > 0;) if (env[i].first == n) return &env[i].second;
	return nullptr;
}

Z TInterp::rem(Z a, Z b)
{
	if (a < 0 && a % b != 0 && in_ineq && ineq_residue) { neg_ineq_mod++; return zmod(a, b); }
	return a % b;
}

Z TInterp::eval(const TExpr &e)
{
	switch (e.k) {
	case TExpr::NUM: return e.v;
	case TExpr::VAR: {
		Z *v = find(e.s);
		if (!v) throw Violation("unbound", "the text uses '" + e.s + "', which has no value there");
		return *v;
	}
	case TExpr::NEG: return zsub(0, eval(*e.a[0]));
	case TExpr::BIN: {
		bool ineq = e.s == "<=" || e.s == ">=";
		in_ineq += ineq;
		Z a = eval(*e.a[0]), b = eval(*e.a[1]);
		in_ineq -= ineq;
		if (e.s == "+") return zadd(a, b);
		if (e.s == "-") return zsub(a, b);
		if (e.s == "*") return zmul(a, b);
		if (e.s == "<=") return a <= b;
		if (e.s == ">=") return a >= b;
		if (e.s == "==") return a == b;
		if (b == 0) throw Violation("divzero", "division by zero in the text");
		if (e.s == "/") return a / b;
		if (e.s == "%") return rem(a, b);
		throw Violation("syntax", "operator " + e.s);
	}
	case TExpr::CALL: {
		std::vector<Z> a;
		std::string fn = e.s;
		if (fortran && (fn == "FLOOR" || fn == "CEILING") && e.a.size() == 1 && e.a[0]->k == TExpr::BIN && e.a[0]->s == "/") {
			const TExpr &x = *e.a[0]->a[0], &y = *e.a[0]->a[1];
			if (x.k != TExpr::CALL || x.s != "REAL" || x.a.size() != 1 || y.k != TExpr::CALL || y.s != "REAL" || y.a.size() != 1)
				throw Violation("syntax", "rounding of something other than REAL(n)/REAL(d)");
			Z n = eval(*x.a[0]), d = eval(*y.a[0]);
			if (d == 0) throw Violation("divzero", "division by zero in the text");
			return fn == "FLOOR" ? zfdiv(n, d) : zcdiv(n, d);
		}
		for (auto &x : e.a) a.push_back(eval(*x));
		auto arity = [&](size_t n) { if (a.size() != n) throw Violation("syntax", fn + " with a wrong number of arguments"); };
		if (!fortran && (fn == "floord" || fn == "ceild")) {
			arity(2);
			// the meaning of the macros CLooG defines, which hold for positive divisors
			if (a[1] <= 0) throw Violation("divisor", fn + " with a divisor that is not positive");
			return fn == "floord" ? zfdiv(a[0], a[1]) : zcdiv(a[0], a[1]);
		}
		if (!fortran && (fn == "max" || fn == "min")) { arity(2); return fn == "max" ? std::max(a[0], a[1]) : std::min(a[0], a[1]); }
		if (fortran && (fn == "MAX" || fn == "MIN")) {
			if (a.size() < 2) throw Violation("syntax", fn + " with less than two arguments");
			Z r = a[0];
			for (Z v : a) r = fn == "MAX" ? std::max(r, v) : std::min(r, v);
			return r;
		}
		if (fortran && fn == "MOD") { arity(2); if (a[1] == 0) throw Violation("divzero", "MOD by zero"); return rem(a[0], a[1]); }
		throw Violation("syntax", "call of unknown function " + fn);
	}
	}
	return 0;
}

void TInterp::exec(const std::vector<TStmt> &b)
{
	for (auto &s : b) {
		if (++steps > maxsteps) throw Inconclusive("too many steps");
		switch (s.k) {
		case TStmt::PRAGMA: break;
		case TStmt::BLOCK: exec(s.body); break;
		case TStmt::ASS: {
			Z v = eval(*s.e);
			Z *o = find(s.s);
			if (o) *o = v; else env.push_back({ s.s, v });
			break;
		}
		case TStmt::CALL:
			if (on_call) { size_t n = calls.size(); on_call(*this, s); if (calls.size() != n || s.s == "polyrt_loop_dist") break; }
			{
				TCall c;
				c.f = s.s;
				for (size_t i = 0; i < s.args.size(); i++) {
					Z v = eval(*s.args[i]);
					c.x.push_back(v);
				}
				calls.push_back(std::move(c));
			}
			break;
		case TStmt::IF: {
			bool ok = true;
			for (auto &c : s.cond) if (!eval(*c)) { ok = false; break; }
			if (ok) exec(s.body);
			break;
		}
		case TStmt::FOR: {
			Z lo, hi;
			if (s.lb) lo = eval(*s.lb);
			if (s.ub) hi = eval(*s.ub);
			if (!window && (!s.lb || !s.ub)) throw Violation("unbounded", "unbounded loop in the text");
			if (window) {
				if (!s.lb && s.step != 1) throw Inconclusive("strided loop without lower bound (unbounded problem)");
				if (!s.lb) lo = -window;
				else if (lo < -window) lo = zadd(lo, zmul(zcdiv(zsub(-window, lo), s.step), s.step));
				if (!s.ub || hi > window) hi = window;
			}
			Z *o = find(s.s);
			if (!o) env.push_back({ s.s, 0 });
			for (Z i = lo; i <= hi; i += s.step) {
				if (++steps > maxsteps) throw Inconclusive("too many steps");
				*find(s.s) = i;
				exec(s.body);
			}
			break;
		}
		}
	}
}
