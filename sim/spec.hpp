// Reference reader of the specification language. Formulas may leave out parentheses: the operators bind as the
// grammar declares (from loose to tight: and | or | not | => | ev, alw, until; binary operators built by and, or
// and => end where the next operator is `and`; everything is left associative where the levels are equal).
// It gives the sequence of definitions a text makes and whether the text is well formed.
#pragma once
#include "ref.hpp"
#include <set>
#include <cstring>
namespace spec {
using namespace ref;
struct TestDef { string id; Params local; F f; string pos, neg; bool err = false; bool inl = true; };
struct Def { enum K { SIGNAL, PARAM, FORMULA, TRACETEST, TEST } k; string name; double val = 0; F f; TestDef t; size_t end = 0; };
struct Result { bool ok = true, loose = false, mixed = false; vector<Def> defs; }; // loose: the error may be part of the last definition
// names known before the text is read
struct Names { vector<string> sigs; std::set<string> pars; map<string, F> forms; std::set<string> tests; };

struct Reader {
    const string &s; size_t p = 0; Names n;
    struct Err {};
    static const std::set<string> &reserved() { static const std::set<string> r{"F", "F_", "ev", "ev_", "G", "G_", "alw", "alw_", "U", "U_", "until", "until_", "and", "or", "not", "true", "false", "t", "abs", "param", "test", "signal"}; return r; }
    Reader(const string &x, const Names &k) : s(x), n(k) {}
    void ws() {
        while (p < s.size()) {
            if (s[p] == ' ' || s[p] == '\t' || s[p] == '\r' || s[p] == '\n') ++p;
            else if (s[p] == '#') { size_t q = s.find('\n', p); if (q == string::npos) return; p = q + 1; }
            else return;
        }
    }
    bool end() { ws(); return p >= s.size(); }
    bool lit(const char *c) { ws(); size_t l = strlen(c); if (s.compare(p, l, c) == 0) { p += l; return true; } return false; }
    void need(const char *c) { if (!lit(c)) throw Err(); }
    static bool isid(char c) { return isalnum((unsigned char)c) || c == '_'; }
    string word() { ws(); size_t q = p; if (q < s.size() && isalpha((unsigned char)s[q])) while (q < s.size() && isid(s[q])) ++q; string w = s.substr(p, q - p); p = q; return w; }
    string peek() { size_t k = p; string w = word(); p = k; return w; }
    size_t numend(size_t q) const { // end of the number that starts at q (as the scanner cuts it), or q
        size_t o = q; if (q < s.size() && (s[q] == '-' || s[q] == '+')) ++q;
        size_t d = q; while (q < s.size() && isdigit((unsigned char)s[q])) ++q;
        if (q < s.size() && s[q] == '.') { size_t z = q + 1; while (z < s.size() && isdigit((unsigned char)s[z])) ++z; if (q == d && z == q + 1) return o; return z; }
        return q == d ? o : q;
    }
    bool number(double &v) {
        ws(); size_t q = numend(p); if (q == p) return false;
        if (q < s.size() && isid(s[q])) return false;
        v = strtod(s.substr(p, q - p).c_str(), nullptr); p = q; return true;
    }
    double num() { double v; if (!number(v)) throw Err(); return v; }
    static E mk(Expr::K k, E l = nullptr, E r = nullptr) { auto e = std::make_shared<Expr>(); e->k = k; e->l = l; e->r = r; return e; }
    E leaf() {
        double v; if (number(v)) { E e = mk(Expr::CONST); e->c = v; return e; }
        string w = word();
        for (size_t i = 0; i < n.sigs.size(); ++i) if (n.sigs[i] == w) { need("["); if (word() != "t") throw Err(); need("]"); E e = mk(Expr::SIG); e->sig = (int)i + 1; e->name = w; return e; }
        if (n.pars.count(w)) { E e = mk(Expr::PARAM); e->name = w; return e; }
        throw Err();
    }
    bool mixed = false; // a product after a sum without parentheses: not judged (see DESIGN.md, known finding)
    E atomexpr(bool first) {
        if (first && peek() == "abs") { word(); need("("); E e = expr(); need(")"); return mk(Expr::ABS, e); }
        if (lit("(")) { E e = expr(); need(")"); return e; }
        return leaf();
    }
    bool usual = false; // read sums of products as everybody does
    bool arith(char &c) { ws(); if (p >= s.size() || numend(p) != p || s.compare(p, 2, "->") == 0) return false; c = s[p]; return c == '+' || c == '-' || c == '*'; }
    E expr() {
        E l = atomexpr(true); bool sum = false; char c;
        while (arith(c)) {
            ++p; E r = atomexpr(false);
            if (c == '*') { if (sum) mixed = true; }
            else { sum = true; if (usual) { char d; while (arith(d) && d == '*') { ++p; mixed = true; r = mk(Expr::MUL, r, atomexpr(false)); } } }
            l = mk(c == '+' ? Expr::ADD : c == '-' ? Expr::SUB : Expr::MUL, l, r);
        }
        return l;
    }
    Bound bound() { Bound b; if (number(b.v)) return b; string w = word(); if (!n.pars.count(w)) throw Err(); b.par = true; b.name = w; return b; }
    void interval(F f) { need("["); f->a = bound(); lit(","); f->b = bound(); need("]"); }
    enum { AND = 1, OR = 2, NOT = 3, IMP = 4, TEMP = 6 };
    int nextop(F f) { // the next operator and its level, or 0
        if (lit("&")) { f->k = Form::AND; return AND; }
        if (lit("|")) { f->k = Form::OR; return OR; }
        if (lit("=>") || lit("->")) { f->k = Form::IMP; return IMP; }
        size_t k = p; string w = word();
        if (w == "and") { f->k = Form::AND; return AND; }
        if (w == "or") { f->k = Form::OR; return OR; }
        if (w == "until_" || w == "until" || w == "U" || w == "U_") { f->k = Form::UNTIL; return TEMP; }
        p = k; return 0;
    }
    F form(int level = 0) {
        F l = unary();
        for (;;) {
            size_t k = p; auto f = std::make_shared<Form>(); int n = nextop(f);
            if (n <= level) { p = k; return l; }
            if (f->k == Form::UNTIL) interval(f);
            f->l = l; f->r = form(n == TEMP ? TEMP : AND); l = f;
        }
    }
    F unary() {
        auto f = std::make_shared<Form>();
        if (lit("!")) { f->k = Form::NOT; f->l = form(NOT); return f; }
        string w = peek();
        if (w == "not") { word(); f->k = Form::NOT; f->l = form(NOT); return f; }
        if (w == "ev" || w == "ev_" || w == "F" || w == "F_") { word(); f->k = Form::EV; interval(f); f->l = form(TEMP); return f; }
        if (w == "alw" || w == "alw_" || w == "G" || w == "G_") { word(); f->k = Form::ALW; interval(f); f->l = form(TEMP); return f; }
        if (lit("<>_") || lit("<>")) { f->k = Form::EV; interval(f); f->l = form(TEMP); return f; }
        if (lit("[]_") || lit("[]")) { f->k = Form::ALW; interval(f); f->l = form(TEMP); return f; }
        { auto it = n.forms.find(w); if (it != n.forms.end()) { word(); return std::make_shared<Form>(*it->second); } }
        size_t in = p; bool m = mixed;
        try { // a predicate; its left side may start with a parenthesis
            f->k = Form::ATOM; f->le = expr();
            if (lit(">=") || lit(">")) f->gt = true; else if (s.compare(p, 2, "<>") != 0 && (lit("<=") || lit("<"))) f->gt = false; else throw Err();
            f->re = expr(); return f;
        } catch (Err &) { size_t far = p; p = in; mixed = m; (void)far; }
        need("("); F g = form(); need(")"); return g;
    }
    string str() { need("\""); size_t q = s.find('"', p); if (q == string::npos) throw Err(); string r = s.substr(p, q - p); p = q + 1; return r; }
    bool boolean() { string w = word(); if (w == "true") return true; if (w == "false") return false; throw Err(); }
    bool fresh(const string &w) { if (w.empty() || reserved().count(w) || n.pars.count(w) || n.forms.count(w)) return false; for (auto &x : n.sigs) if (x == w) return false; return true; }
    Result read() {
        Result r; bool first = true; size_t k = 0; string last; // the definition before: its name is read before it is made, so it can be given again
        try {
            if (end()) throw Err(); // an empty text defines nothing and is not a specification
            while (!end()) {
                k = p; string w = word(), before; std::swap(before, last);
                if (w == "signal") {
                    if (!first) throw Err();
                    do { string x = word(); bool known = std::find(n.sigs.begin(), n.sigs.end(), x) != n.sigs.end();
                        if (!known) { if (!fresh(x) || n.tests.count(x)) throw Err(); n.sigs.push_back(x); Def d; d.k = Def::SIGNAL; d.name = x; d.end = p; r.defs.push_back(d); } } while (lit(","));
                } else if (w == "param") {
                    do { string x = word(); if (!n.pars.count(x) && (!fresh(x) || n.tests.count(x))) throw Err(); need("="); double v = num();
                        n.pars.insert(x); Def d; d.k = Def::PARAM; d.name = x; d.val = v; d.end = p; r.defs.push_back(d); } while (lit(","));
                } else if (w == "test") {
                    string x = word(); if (!fresh(x)) throw Err(); need(":"); Def d; d.k = Def::TRACETEST; d.name = x; d.t.pos = str(); if (lit(",")) { d.val = num(); need(","); d.t.err = boolean(); }
                    r.defs.push_back(d); need("{"); // takes effect when the environment is read
                    bool any = false;
                    while (!lit("}")) { any = true;
                        string id = word(); Def e; e.k = Def::TEST; e.name = id; e.t.id = id;
                        if (n.tests.count(id)) e.t.inl = false; else if (!fresh(id)) throw Err();
                        if (lit("(")) { do { string q = word(); if (!n.pars.count(q) && !fresh(q)) throw Err(); need("="); e.t.local[q] = num(); } while (lit(",")); need(")"); }
                        if (e.t.inl) { need("{"); e.t.f = form(); need(","); e.t.pos = str(); need(","); e.t.neg = str(); need(","); e.t.err = boolean(); need("}"); n.tests.insert(id); }
                        e.end = p; r.defs.push_back(e); }
                    if (!any) throw Err();
                } else {
                    if (w.empty() || (w != before && !fresh(w))) throw Err();
                    need(":="); F f = form(); Def d; d.k = Def::FORMULA; d.name = w; d.f = f; d.end = p; n.forms[w] = f; last = w; r.defs.push_back(d);
                }
                first = false;
            }
        } catch (Err &) { r.ok = false; static const std::set<string> cont{"and", "or", "until", "until_", "U", "U_"}; p = k; string w = word(); r.loose = !r.defs.empty() && (w.empty() || cont.count(w)); }
        r.mixed = mixed; return r;
    }
};
inline Result read(const string &text, const Names &n, bool usual = false) { Reader r(text, n); r.usual = usual; return r.read(); }
} // namespace spec
