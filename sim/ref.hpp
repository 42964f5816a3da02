// Reference model of Signal Temporal Logic robustness over piecewise-linear,
// right-continuous signals.  Written from the textbook definitions, brute force,
// sharing no code and no algorithm with the library.
#pragma once
#include <vector>
#include <map>
#include <string>
#include <memory>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#include <sstream>
namespace ref {
using std::vector; using std::string; using std::map;

struct Seg { double t, v, d; };
// function on the closed interval [b,e]; s non-empty, s[0].t == b, s increasing; the value on [s[i].t, s[i+1].t)
// is v + d*(t-s[i].t), the value at e itself is ve (a jump may sit exactly there)
struct PL {
    double b = 0, e = 0, ve = 0;
    vector<Seg> s;
    double val(double t) const { return t >= e ? ve : at(t); }
    void closeEnd() { ve = left(e); }
    size_t idx(double t) const { size_t i = s.size() - 1; while (i > 0 && s[i].t > t) --i; return i; }
    size_t idxL(double t) const { size_t i = s.size() - 1; while (i > 0 && s[i].t >= t) --i; return i; }
    double at(double t) const { const Seg &g = s[idx(t)]; return g.v + g.d * (t - g.t); }          // right limit
    double left(double t) const { const Seg &g = s[idxL(t)]; return g.v + g.d * (t - g.t); }        // left limit
};
inline PL constant(double b, double e, double v) { PL p; p.b = b; p.e = e; p.ve = v; p.s = {{b, v, 0}}; return p; }
inline PL neg(PL p) { p.ve = -p.ve; for (auto &g : p.s) { g.v = -g.v; g.d = -g.d; } return p; }
inline PL restrict(const PL &p, double b, double e) {
    PL r; r.b = b; r.e = e;
    const Seg &g = p.s[p.idx(b)];
    r.s.push_back({b, g.v + g.d * (b - g.t), g.d});
    for (auto &q : p.s) if (q.t > b && q.t < e) r.s.push_back(q);
    r.ve = p.val(e);
    return r;
}
inline PL shifted(PL p, double a) { p.b += a; p.e += a; for (auto &g : p.s) g.t += a; return p; }
inline void norm(vector<double> &c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); }
// pointwise extremum of two functions on their common domain
inline PL ext2(const PL &x, const PL &y, bool mx) {
    PL r; r.b = std::max(x.b, y.b); r.e = std::min(x.e, y.e);
    r.ve = mx ? std::max(x.val(r.e), y.val(r.e)) : std::min(x.val(r.e), y.val(r.e));
    vector<double> c{r.b};
    for (auto &g : x.s) if (g.t > r.b && g.t < r.e) c.push_back(g.t);
    for (auto &g : y.s) if (g.t > r.b && g.t < r.e) c.push_back(g.t);
    norm(c);
    for (size_t i = 0; i < c.size(); ++i) {
        double t = c[i], n = i + 1 < c.size() ? c[i + 1] : r.e;
        const Seg &p = x.s[x.idx(t)], &q = y.s[y.idx(t)];
        double pv = p.v + p.d * (t - p.t), qv = q.v + q.d * (t - q.t);
        // decide by the differences at both ends, so that a crossing lost in rounding cannot pick the wrong branch
        double d0 = pv - qv, d1 = d0 + (p.d - q.d) * (n - t);
        if (d0 * d1 < 0) {
            double cross = t + (n - t) * (d0 / (d0 - d1));
            bool px = mx ? d0 > 0 : d0 < 0;
            if (!(cross > t)) px = !px; // they are equal at t up to rounding
            r.s.push_back(px ? Seg{t, pv, p.d} : Seg{t, qv, q.d});
            if (cross > t && cross < n) {
                double v = pv + p.d * (cross - t);
                r.s.push_back(px ? Seg{cross, v, q.d} : Seg{cross, v, p.d});
            }
        } else {
            double m = std::fabs(d0) > std::fabs(d1) ? d0 : d1;
            if (m == 0) m = p.d - q.d;
            bool px = mx ? m >= 0 : m <= 0;
            r.s.push_back(px ? Seg{t, pv, p.d} : Seg{t, qv, q.d});
        }
    }
    return r;
}
// g(t) = sup (mx) / inf over [t+a, t+b] of f, for t in [s,e]; f must cover [s+a, e+b].
// Isolated point values do not exist in this representation: limits from both sides count inside the window.
inline PL window(const PL &f, double a, double b, double s, double e, bool mx) {
    vector<double> c{s};
    for (auto &g : f.s) { for (double o : {a, b}) { double t = g.t - o; if (t > s && t < e) c.push_back(t); } }
    norm(c);
    PL r; r.b = s; r.e = e; bool first = true;
    for (size_t i = 0; i < c.size(); ++i) {
        double t = c[i], n = i + 1 < c.size() ? c[i + 1] : e;
        // on (t,n) the breakpoints of f strictly inside the window are a fixed set
        double mid = n > t ? 0.5 * (t + n) : t;
        double m = mx ? -HUGE_VAL : HUGE_VAL; bool any = false;
        for (size_t k = 0; k < f.s.size(); ++k) {
            double bp = f.s[k].t;
            if (bp > mid + a && bp < mid + b) {
                double u = f.at(bp), w = f.left(bp);
                m = mx ? std::max(m, std::max(u, w)) : std::min(m, std::min(u, w)); any = true;
            }
        }
        auto lin = [&](double off) { const Seg &g = f.s[f.idx(mid + off)]; PL q; q.b = t; q.e = n;
            q.s = {{t, g.v + g.d * (t + off - g.t), g.d}}; q.closeEnd(); return q; };
        PL q = ext2(lin(a), lin(b), mx);
        if (any) q = ext2(q, constant(t, n, m), mx);
        if (n == t && !first) continue;
        for (auto &g : q.s) r.s.push_back(g);
        first = false;
    }
    // the closed window [e+a, e+b]
    auto acc = [&](double v) { r.ve = mx ? std::max(r.ve, v) : std::min(r.ve, v); };
    r.ve = mx ? -HUGE_VAL : HUGE_VAL;
    acc(f.val(e + a)); acc(f.val(e + b));
    if (b > a) { if (e + b > f.b) acc(f.left(e + b));
        for (auto &g : f.s) if (g.t > e + a && g.t < e + b) { acc(f.at(g.t)); acc(f.left(g.t)); } }
    return r;
}
// unbounded until on the common domain: u(t) = sup_{t'>=t} min(y(t'), inf_{[t,t']} x)
inline PL until0(const PL &x, const PL &y) {
    PL r; r.b = std::max(x.b, y.b); r.e = std::min(x.e, y.e);
    vector<double> c{r.b};
    for (auto &g : x.s) if (g.t > r.b && g.t < r.e) c.push_back(g.t);
    for (auto &g : y.s) if (g.t > r.b && g.t < r.e) c.push_back(g.t);
    norm(c);
    vector<vector<Seg>> parts;
    r.ve = std::min(x.val(r.e), y.val(r.e));
    double un = r.ve; // u(n)
    for (size_t i = c.size(); i-- > 0;) {
        double t = c[i], n = i + 1 < c.size() ? c[i + 1] : r.e;
        const Seg &p = x.s[x.idx(t)], &q = y.s[y.idx(t)];
        PL xs; xs.b = t; xs.e = n; xs.s = {{t, p.v + p.d * (t - p.t), p.d}}; xs.closeEnd();
        PL ys; ys.b = t; ys.e = n; ys.s = {{t, q.v + q.d * (t - q.t), q.d}}; ys.closeEnd();
        double xn = xs.s[0].v + xs.s[0].d * (n - t);
        auto runmax = [&](const PL &f) { // h(z) = sup_{[z,n]} f for PL continuous f on [t,n]
            PL h; h.b = t; h.e = n; vector<Seg> rev; double best = -HUGE_VAL;
            for (size_t k = f.s.size(); k-- > 0;) {
                double z0 = f.s[k].t, z1 = k + 1 < f.s.size() ? f.s[k + 1].t : n;
                double v0 = f.s[k].v, v1 = v0 + f.s[k].d * (z1 - z0);
                best = std::max(best, v1);
                if (v0 <= best) { if (v1 < v0 && false) {} rev.push_back({z0, best, 0}); }
                else { // decreasing segment exceeding best near z0
                    double z = z0 + (best - v0) / f.s[k].d;
                    if (z < z1) rev.push_back({z, best, 0});
                    rev.push_back({z0, v0, f.s[k].d}); best = v0;
                }
            }
            h.s.assign(rev.rbegin(), rev.rend()); h.closeEnd(); return h; };
        PL u;
        if (p.d >= 0) { // inf over [z,z'] is x(z)
            PL h = ext2(runmax(ys), constant(t, n, un), true);
            u = ext2(xs, h, false);
        } else { // inf over [z,z'] is x(z')
            PL h = runmax(ext2(ys, xs, false));
            u = ext2(h, constant(t, n, std::min(xn, un)), true);
        }
        un = u.at(t);
        parts.push_back(u.s);
    }
    for (size_t i = parts.size(); i-- > 0;) for (auto &g : parts[i]) r.s.push_back(g);
    return r;
}

// ---------------------------------------------------------------- formulas
struct Expr { enum K { SIG, CONST, PARAM, ADD, SUB, MUL, ABS } k = CONST; int sig = 0; double c = 0; string name; std::shared_ptr<Expr> l, r; };
typedef std::shared_ptr<Expr> E;
struct Bound { bool par = false; double v = 0; string name; };
struct Form { enum K { ATOM, NOT, AND, OR, IMP, EV, ALW, UNTIL } k = ATOM; bool gt = true; E le, re; std::shared_ptr<Form> l, r; Bound a, b; };
typedef std::shared_ptr<Form> F;
typedef map<string, double> Params;
enum Interp { LINEAR, PREVIOUS };
enum Sem { SPACE, LEFT_TIME, RIGHT_TIME };

struct Trace { vector<vector<double>> rows; }; // [t, v1, v2, ...]

struct Env {
    const vector<vector<double>> *data; const Params *par; Interp ip; Sem sem = SPACE;
    double bnd(const Bound &b) const { if (!b.par) return b.v; auto i = par->find(b.name); return i == par->end() ? 0. : i->second; }
    // value of column c over [s,e]; before the first sample constant, at/after the last sample constant
    PL column(int c, double s, double e) const {
        PL r; r.b = s; r.e = e; const auto &D = *data;
        double first = D[0][c];
        PL full; full.b = std::min(s, D[0][0]); full.e = std::max(e, D.back()[0]);
        if (D[0][0] > full.b) full.s.push_back({full.b, first, 0});
        for (size_t i = 0; i < D.size(); ++i) {
            double d = 0;
            if (i + 1 < D.size() && ip == LINEAR) d = (D[i + 1][c] - D[i][c]) / (D[i + 1][0] - D[i][0]);
            full.s.push_back({D[i][0], D[i][c], d});
        }
        full.ve = full.at(full.e);
        if (e <= s) { PL z; z.b = s; z.e = s; z.ve = full.at(s); z.s = {{s, full.at(s), full.s[full.idx(s)].d}}; return z; }
        return restrict(full, s, e);
    }
    // operators act on the values held at the sample instants inside the window and at its two ends;
    // between those instants the result is interpolated like any signal
    PL expr(const E &x, double s, double e) const {
        switch (x->k) {
        case Expr::SIG: return column(x->sig, s, e);
        case Expr::CONST: return constant(s, e, x->c);
        case Expr::PARAM: { auto i = par->find(x->name); return constant(s, e, i == par->end() ? 0. : i->second); }
        default: break;
        }
        PL p = expr(x->l, s, e), q; if (x->r) q = expr(x->r, s, e);
        auto op = [&](double u, double w) { switch (x->k) { case Expr::ADD: return u + w; case Expr::SUB: return u - w; case Expr::MUL: return u * w; default: return std::fabs(u); } };
        vector<double> c{s}; for (auto &row : *data) if (row[0] > s && row[0] < e) c.push_back(row[0]);
        norm(c);
        PL r; r.b = s; r.e = e;
        for (size_t i = 0; i < c.size(); ++i) {
            double t = c[i], n = i + 1 < c.size() ? c[i + 1] : e;
            double v = op(p.at(t), x->r ? q.at(t) : 0), d = 0;
            if (n > t && ip == LINEAR) d = (op(p.left(n), x->r ? q.left(n) : 0) - v) / (n - t);
            r.s.push_back({t, v, d});
        }
        r.ve = op(p.ve, x->r ? q.ve : 0);
        return r;
    }
    PL atomtime(const PL &z) const { // time robustness of an atom, relative to the window
        // boolean switching instants of z over its domain: true iff z>0
        struct B { double t; bool v; }; vector<B> bs;
        auto push = [&](double t, bool v) { if (bs.empty() || bs.back().v != v) bs.push_back({t, v}); };
        for (size_t i = 0; i < z.s.size(); ++i) {
            double t = z.s[i].t, n = i + 1 < z.s.size() ? z.s[i + 1].t : z.e, v = z.s[i].v, d = z.s[i].d;
            push(t, v > 0);
            if (v > 0 && d < 0) { double c = t - v / d; if (c < n) push(c, false); }
            if (v <= 0 && d > 0) { double c = t - v / d; if (c < n) push(c, true); }
        }
        PL r; r.b = z.b; r.e = z.e;
        for (size_t i = 0; i < bs.size(); ++i) {
            double n = i + 1 < bs.size() ? bs[i + 1].t : z.e;
            if (sem == LEFT_TIME) r.s.push_back({bs[i].t, 0, bs[i].v ? 1. : -1.});
            else r.s.push_back({bs[i].t, bs[i].v ? n - bs[i].t : bs[i].t - n, bs[i].v ? -1. : 1.});
        }
        r.closeEnd();
        return r;
    }
    PL form(const F &f, double s, double e) const {
        switch (f->k) {
        case Form::ATOM: {
            PL p = expr(f->le, s, e), q = expr(f->re, s, e);
            PL r; r.b = s; r.e = e; vector<double> c{s};
            for (auto &g : p.s) if (g.t > s && g.t < e) c.push_back(g.t);
            for (auto &g : q.s) if (g.t > s && g.t < e) c.push_back(g.t);
            norm(c);
            double sg = f->gt ? 1 : -1;
            for (double t : c) { const Seg &u = p.s[p.idx(t)], &w = q.s[q.idx(t)];
                r.s.push_back({t, sg * ((u.v + u.d * (t - u.t)) - (w.v + w.d * (t - w.t))), sg * (u.d - w.d)}); }
            r.ve = sg * (p.ve - q.ve);
            if (sem != SPACE) return atomtime(r);
            return r;
        }
        case Form::NOT: return neg(form(f->l, s, e));
        case Form::AND: return ext2(form(f->l, s, e), form(f->r, s, e), false);
        case Form::OR: return ext2(form(f->l, s, e), form(f->r, s, e), true);
        case Form::IMP: return ext2(neg(form(f->l, s, e)), form(f->r, s, e), true);
        case Form::EV: case Form::ALW: { double a = bnd(f->a), b = bnd(f->b); return window(form(f->l, s + a, e + b), a, b, s, e, f->k == Form::EV); }
        case Form::UNTIL: {
            double a = bnd(f->a), b = bnd(f->b);
            PL x = form(f->l, s, e + b), y = form(f->r, s + a, e + b);
            PL g = window(x, 0, a, s, e, false);
            PL v = window(y, a, b, s, e, true);
            PL u = shifted(until0(x, y), -a); u = restrict(u, s, e);
            return ext2(ext2(g, v, false), u, false);
        }
        }
        throw std::logic_error("form");
    }
    double rob(const F &f, double t) const { return form(f, t, t).ve; }
};
// future reach of a formula: rob(f,t) depends on [t, t+horizon]
inline double horizon(const F &f, const Env &env) {
    switch (f->k) {
    case Form::ATOM: return 0;
    case Form::NOT: return horizon(f->l, env);
    case Form::AND: case Form::OR: case Form::IMP: return std::max(horizon(f->l, env), horizon(f->r, env));
    case Form::EV: case Form::ALW: return env.bnd(f->b) + horizon(f->l, env);
    case Form::UNTIL: return env.bnd(f->b) + std::max(horizon(f->l, env), horizon(f->r, env));
    }
    return 0;
}
} // namespace ref
