// Formula generator and printer (everything parenthesised; every printed number is a short decimal).
#pragma once
#include "prng.hpp"
#include "ref.hpp"
#include <cstdio>
#include <cstdlib>
namespace gen {
using namespace ref;
inline string num(double v) { char b[64]; snprintf(b, sizeof b, "%.10f", v); string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s += '0'; return s; }
inline double dec(double v) { return strtod(num(v).c_str(), nullptr); } // the value its decimal text has
struct Cfg { int nsig = 2; int depth = 3; bool until = true, par = true, arith = true, abs = true, mul = true; bool nonconst_mul = false; double bare = 0; int maxb = 8; double unit = 0.25; vector<string> params; };
inline string sname(int i) { static const char *n[] = {"x", "y", "z", "w", "x1", "x10", "evx", "u_2", "Speed", "F2", "not1", "T0"}; return n[i - 1]; }
inline string print(const E &e) {
    switch (e->k) {
    case Expr::SIG: return sname(e->sig) + "[t]";
    case Expr::CONST: return num(e->c);
    case Expr::PARAM: return e->name;
    case Expr::ADD: return "(" + print(e->l) + " + " + print(e->r) + ")";
    case Expr::SUB: return "(" + print(e->l) + " - " + print(e->r) + ")";
    case Expr::MUL: return "(" + print(e->l) + " * " + print(e->r) + ")";
    case Expr::ABS: return "(abs(" + print(e->l) + "))";
    }
    return "";
}
inline string print(const Bound &b) { return b.par ? b.name : num(b.v); }
inline string print(const F &f) {
    switch (f->k) {
    case Form::ATOM: return "(" + print(f->le) + (f->gt ? " > " : " < ") + print(f->re) + ")";
    case Form::NOT: return "(not " + print(f->l) + ")";
    case Form::AND: return "(" + print(f->l) + " and " + print(f->r) + ")";
    case Form::OR: return "(" + print(f->l) + " or " + print(f->r) + ")";
    case Form::IMP: return "(" + print(f->l) + " => " + print(f->r) + ")";
    case Form::EV: return "(ev_[" + print(f->a) + ", " + print(f->b) + "] " + print(f->l) + ")";
    case Form::ALW: return "(alw_[" + print(f->a) + ", " + print(f->b) + "] " + print(f->l) + ")";
    case Form::UNTIL: return "(" + print(f->l) + " until_[" + print(f->a) + ", " + print(f->b) + "] " + print(f->r) + ")";
    }
    return "";
}
// prints with a share of the parentheses left out
struct Loose {
    Prng &g; double drop;
    string par(const string &x) { return g.chance(drop) ? x : "(" + x + ")"; }
    string e(const E &x) {
        switch (x->k) {
        case Expr::ADD: return par(e(x->l) + " + " + e(x->r));
        case Expr::SUB: return par(e(x->l) + " - " + e(x->r));
        case Expr::MUL: return par(e(x->l) + (g.chance(0.5) ? " * " : "*") + e(x->r));
        case Expr::ABS: return par("abs(" + e(x->l) + ")");
        default: return print(x);
        }
    }
    string i(const F &f) { return "_[" + print(f->a) + (g.chance(0.15) ? " " : g.chance(0.5) ? "," : ", ") + print(f->b) + "] "; }
    string f(const F &x) {
        switch (x->k) {
        case Form::ATOM: return par(e(x->le) + (x->gt ? " > " : " < ") + e(x->re));
        case Form::NOT: return par("not " + f(x->l));
        case Form::AND: return par(f(x->l) + " and " + f(x->r));
        case Form::OR: return par(f(x->l) + " or " + f(x->r));
        case Form::IMP: return par(f(x->l) + " => " + f(x->r));
        case Form::EV: return par("ev" + i(x) + f(x->l));
        case Form::ALW: return par("alw" + i(x) + f(x->l));
        default: return par(f(x->l) + " until" + i(x) + f(x->r));
        }
    }
};
inline E mk(Expr::K k, E l = nullptr, E r = nullptr) { auto e = std::make_shared<Expr>(); e->k = k; e->l = l; e->r = r; return e; }
inline E cst(double c) { auto e = mk(Expr::CONST); e->c = c; return e; }
inline E sig(int i) { auto e = mk(Expr::SIG); e->sig = i; return e; }
// mostly round values, now and then one with many digits
inline double digits(Prng &g, double v) {
    if (!g.chance(0.06)) return v;
    switch (g.range(0, 4)) {
    case 0: return dec(v + g.range(-9999, 9999) * 1e-4);
    case 1: return dec(v + g.range(-999999999, 999999999) * 1e-10);
    case 2: return dec(v + g.pick(vector<double>{0.1, 0.3, 0.7, 1. / 3, 0.0001, 1e-7}));
    case 3: return dec(g.range(-90, 90) + g.range(0, 9999) * 0.0001);
    default: return dec(g.range(-99, 99) * 1e-6);
    }
}
inline E leaf(Prng &g, const Cfg &c, bool sigonly = false) {
    int k = g.range(0, 9);
    if (!sigonly && c.par && !c.params.empty() && k < 2) { auto e = mk(Expr::PARAM); e->name = g.pick(c.params); return e; }
    if (!sigonly && k < 4) return cst(digits(g, g.range(-8, 8) * 0.5));
    return sig(g.range(1, c.nsig));
}
inline bool hassig(const E &e) { return e->k == Expr::SIG || (e->l && hassig(e->l)) || (e->r && hassig(e->r)); }
inline E expr(Prng &g, const Cfg &c, int d) {
    if (d <= 0 || !c.arith || g.chance(0.55)) return leaf(g, c);
    int k = g.range(0, 3);
    if (k == 0) return mk(Expr::ADD, expr(g, c, d - 1), expr(g, c, d - 1));
    if (k == 1) return mk(Expr::SUB, expr(g, c, d - 1), expr(g, c, d - 1));
    if (k == 2 && c.abs) return mk(Expr::ABS, expr(g, c, d - 1));
    if (k == 3 && c.mul) { // values stay far below the library's infinity: a product of two signals has plain factors
        E l, r; if (c.nonconst_mul && g.chance(0.5)) { l = leaf(g, c); r = leaf(g, c); }
        else { l = expr(g, c, d - 1); r = l->k <= Expr::PARAM && !hassig(l) ? leaf(g, c) : cst(g.range(-4, 4) * 0.5); if (g.chance(0.5)) std::swap(l, r); }
        return mk(Expr::MUL, l, r); }
    return leaf(g, c);
}
inline F atom(Prng &g, const Cfg &c) {
    auto f = std::make_shared<Form>(); f->k = Form::ATOM; f->gt = g.chance(0.5);
    f->le = g.chance(0.7) ? sig(g.range(1, c.nsig)) : expr(g, c, 2); f->re = g.chance(0.7) ? (g.chance(0.2) && c.par && !c.params.empty() ? leaf(g, c) : cst(digits(g, g.range(-6, 6) * 0.5))) : expr(g, c, 1);
    return f;
}
inline F form(Prng &g, const Cfg &c, int d) {
    if (d <= 0) return atom(g, c);
    auto f = std::make_shared<Form>();
    int k = g.range(0, c.until ? 10 : 8);
    if (k == 0) return atom(g, c);
    if (k == 1) { f->k = Form::NOT; f->l = form(g, c, d - 1); return f; }
    if (k <= 4) { f->k = k == 2 ? Form::AND : k == 3 ? Form::OR : Form::IMP; f->l = form(g, c, d - 1); f->r = form(g, c, d - 1); return f; }
    int a = g.chance(0.4) ? 0 : g.range(0, c.maxb), b = a + (g.chance(0.1) ? 0 : g.range(1, c.maxb));
    f->a.v = dec(a * c.unit); f->b.v = dec(b * c.unit);
    if (k <= 8) { f->k = k <= 6 ? Form::EV : Form::ALW; f->l = form(g, c, d - 1); return f; }
    f->k = Form::UNTIL; f->l = form(g, c, d - 1); f->r = form(g, c, d - 1); return f;
}
inline int size(const F &f) { return 1 + (f->l ? size(f->l) : 0) + (f->r ? size(f->r) : 0); }
} // namespace gen
