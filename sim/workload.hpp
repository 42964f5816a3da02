// Workloads: a discrete-event simulation of a deployment (sensors, network, collector process, disk, operators)
// whose outcome is written down as a plan. One seed gives one plan.
#pragma once
#include <optional>
#include "gen.hpp"
#include "plan.hpp"
#include "spec.hpp"
#include <queue>
namespace workload {
using namespace ref; using plan::Op; using plan::Run; using plan::d2s;
typedef map<string, string> KV;
struct W {
    Prng g; Run r; gen::Cfg c; bool dy = true; double now = 0;
    vector<string> pars, tpars; map<string, double> pv; map<string, F> forms; vector<string> names; vector<string> tests;
    double t0base = 0; vector<double> t0s; map<string, double> lastt; // last time accepted per object
    map<string, vector<string>> mons;
    W(const string &prop, uint64_t seed) : g(seed) { r.prop = prop; r.seed = seed; }
    Op &op(vector<string> a, KV kv = KV()) { Op o; o.a = std::move(a); o.kv = std::move(kv); r.ops.push_back(o); return r.ops.back(); }
    // ---------------------------------------------------------------- specifications
    void config() {
        c.nsig = g.range(1, 3); c.depth = g.range(1, 3); c.until = g.chance(0.6); c.par = g.chance(0.4); c.arith = g.chance(0.4); c.abs = g.chance(0.5); c.mul = g.chance(0.6); c.nonconst_mul = g.chance(0.5); c.maxb = g.pick(vector<int>{2, 4, 8}); c.unit = g.pick(vector<double>{0.25, 0.5, 1});
        if (g.chance(0.05)) c.nsig = g.range(4, 12);
        if (g.chance(0.04)) { c.depth = g.range(4, 5); c.maxb = 2; }
        dy = g.chance(0.7); if (!dy && g.chance(0.1)) c.unit = g.pick(vector<double>{0.1, 0.3, 0.07}); c.bare = g.pick(vector<double>{0, 0.3, 0.8});
        if (c.par) { pars = {"p", "q"}; if (g.chance(0.7)) tpars = {"T", "s"}; for (auto &p : pars) pv[p] = gen::digits(g, g.range(-6, 6) * 0.5); for (auto &p : tpars) pv[p] = p == "s" ? g.range(0, 2) * 0.25 : g.range(2, 8) * 0.25; c.params = pars; }
        t0base = g.chance(0.7) ? 0 : g.range(-16, 8) * 0.25;
        if (g.chance(0.05)) { dy = true; began = g.pick(vector<double>{1000, 65536, 500000}); t0base += began; } // a clock that started long ago
        if (!c.arith && g.chance(0.06)) { // other magnitudes, perhaps with the library's infinity moved
            scale = g.pick(vector<double>{0.001, 64, 100}); int k = g.range(0, 3); if (k == 0) { scale = 2000; op({"bigm", "1e6"}); } else if (k == 1) { scale = 0.5; op({"bigm", "300"}); } }
        big = g.chance(0.02);
        int k = g.range(1, 3); for (int i = 0; i < k; ++i) t0s.push_back(i == 0 && g.chance(0.6) ? t0base : t0base + g.range(g.chance(0.15) ? -6 : 0, 8) * 0.25);
    }
    void tbounds(F f) { // time bounds given by parameters: the upper end by T, the lower by s <= 0.5
        if (!f) return;
        if ((f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL) && !tpars.empty() && g.chance(0.4)) {
            if (g.chance(0.5)) { f->b.par = true; f->b.name = "T"; f->a.v = std::min(f->a.v, 0.5); if (g.chance(0.4)) { f->a.par = true; f->a.name = "s"; } }
            else { f->a.par = true; f->a.name = "s"; f->b.v = std::max(f->b.v, 0.5); }
        }
        tbounds(f->l); tbounds(f->r);
    }
    F formula(int depth = -1) { F f = gen::form(g, c, depth < 0 ? c.depth : depth); tbounds(f); return f; }
    // the formula as text, often with parentheses left out where the rest still says the same
    string pr(const F &f) {
        string full = gen::print(f); if (!g.chance(c.bare)) return full;
        spec::Names n; for (int i = 1; i <= c.nsig; ++i) n.sigs.push_back(gen::sname(i)); for (auto &x : pv) n.pars.insert(x.first);
        for (int k = 0; k < 4; ++k) {
            gen::Loose l{g, g.pick(vector<double>{0.3, 0.7, 1})}; string t = l.f(f); spec::Reader rd(t, n);
            try { F h = rd.form(); if (rd.end() && !rd.mixed && gen::print(h) == full) return t; } catch (spec::Reader::Err &) {}
        }
        return full;
    }
    string decls(bool extra = true) {
        string t = "signal "; for (int i = 1; i <= c.nsig; ++i) t += (i > 1 ? ", " : "") + gen::sname(i); t += "\n";
        bool first = true; for (auto &p : pv) { if (g.chance(0.5) || first) { t += first ? "param " : "\nparam "; } else t += ", "; t += p.first + " = " + gen::num(p.second); first = false; }
        if (!pv.empty()) t += "\n";
        (void)extra; return t;
    }
    string fdef(const string &name, int depth = -1) {
        F f = formula(depth); string t;
        if (!names.empty() && g.chance(0.25)) {
            const string &o = g.pick(names); F other = forms[o]; auto n = std::make_shared<Form>(); string body;
            switch (g.range(0, 3)) {
            case 0: n->k = Form::AND; n->l = other; n->r = f; body = "(" + o + " and " + gen::print(f) + ")"; break;
            case 1: n->k = Form::NOT; n->l = other; body = "(not " + o + ")"; break;
            case 2: n->k = Form::EV; n->a.v = 0; n->b.v = c.unit; n->l = other; body = "(ev_[0, " + gen::num(c.unit) + "] " + o + ")"; break;
            default: n->k = Form::OR; n->l = f; n->r = other; body = "(" + gen::print(f) + " or " + o + ")"; break;
            }
            f = n; t = name + " := " + body + "\n";
        } else t = name + " := " + pr(f) + "\n";
        if (texts && g.chance(0.05)) { // defined again at once: the last definition counts, and may use the one before
            if (g.chance(0.5)) t = name + " := " + pr(formula(1)) + "\n" + t;
            else { auto n = std::make_shared<Form>(); n->k = Form::NOT; n->l = f; f = n; t += name + " := (not " + name + ")\n"; }
        }
        forms[name] = f; names.push_back(name);
        return t;
    }
    double hor(const string &n) { Params p; for (auto &x : pv) p[x.first] = x.second; for (auto &x : tpars) p[x] = std::max(p[x], x == "s" ? 0.5 : 2.0); Rows0 d; Env e{&d, &p, LINEAR, SPACE}; return horizon(forms[n], e); }
    typedef vector<vector<double>> Rows0;
    string setup(const string &d, int nf = 0) {
        op({"new", d});
        string t = decls(); if (!nf) nf = g.range(1, 3);
        for (int i = 0; i < nf; ++i) t += fdef(string("phi") + char('a' + names.size()));
        op({"parse", d, "string", t});
        return t;
    }
    // ---------------------------------------------------------------- data
    struct Sig { int mode = 0; double v = 0; };
    vector<Sig> sg; double off = 0, scale = 1, began = 0; bool big = false; // big: one run in fifty is long
    double value(int i) {
        if ((int)sg.size() <= i) { sg.resize(i + 1); sg[i].mode = g.range(0, 4); sg[i].v = g.range(-6, 6) * 0.5; }
        Sig &s = sg[i];
        switch (s.mode) {
        case 0: s.v += g.range(-2, 2) * 0.5; break;               // walk
        case 1: s.v = g.range(-12, 12) * 0.5; break;              // noise
        case 2: if (g.chance(0.2)) s.v = g.range(-8, 8) * 0.5; break; // steps
        case 3: s.v += 0.25; if (s.v > 6) s.v = -6; break;        // saw tooth
        default: s.v = g.chance(0.1) ? 30 : 0.5 * g.range(-3, 3); // spikes
        }
        if (s.v > 40) s.v = 40; if (s.v < -40) s.v = -40;
        return s.v * scale + off;
    }
    double tick(double t) { // next sensor time
        static const double d1[] = {0.0625, 0.125, 0.25, 0.25, 0.5, 1, 1.5}, d2[] = {0.05, 0.1, 0.1, 0.2, 0.3, 0.7, 1.1};
        double dt = uniform_dt > 0 && !g.chance(0.1) ? uniform_dt : (dy ? d1 : d2)[g.below(7)];
        double u = t + dt; if (!dy) u = std::floor(u * 1000 + 0.5) / 1000; return u;
    }
    double uniform_dt = 0;
    vector<string> row(double t, int n = -1) { vector<string> v{d2s(t)}; for (int i = 0; i < (n < 0 ? c.nsig : n); ++i) v.push_back(d2s(value(i))); return v; }
    // ---------------------------------------------------------------- the network
    struct Net { double drop = 0, dup = 0, late = 0, skew = 0; double maxdelay = 1; };
    struct Arr { double at; long seq; vector<string> row; double t; bool operator<(const Arr &o) const { return at != o.at ? at < o.at : seq < o.seq; } };
    Net net() { Net n; if (g.chance(0.5)) n.drop = g.pick(vector<double>{0.05, 0.2, 0.5}); if (g.chance(0.4)) n.dup = g.pick(vector<double>{0.05, 0.3}); if (g.chance(0.4)) n.late = g.pick(vector<double>{0.05, 0.3}); if (g.chance(0.15)) n.skew = 0.05; n.maxdelay = g.pick(vector<double>{0.3, 1, 4}); return n; }
    vector<Arr> deliveries(double from, double until, const Net &n, int maxrows = 60) {
        vector<Arr> v; double t = from; long seq = 0; double real = from; double skew = 0;
        if (g.chance(0.6)) uniform_dt = dy ? g.pick(vector<double>{0.125, 0.25, 0.5}) : g.pick(vector<double>{0.1, 0.2, 0.3}); else uniform_dt = 0;
        for (int i = 0; i < maxrows; ++i) {
            if (g.chance(n.skew)) { skew += g.chance(0.5) ? -0.5 : 0.5; ++r.faults["clock_jump"]; }
            double ts = t + skew; if (!dy) ts = std::floor(ts * 1000 + 0.5) / 1000; auto rw = row(ts); double stamp = strtod(rw[0].c_str(), nullptr);
            if (g.chance(n.drop)) ++r.faults["net_drop"];
            else {
                double at = real + 0.001; if (g.chance(n.late)) { at += n.maxdelay * g.range(1, 10) * 0.1; ++r.faults["net_delay"]; }
                v.push_back({at, seq++, rw, stamp});
                if (g.chance(n.dup)) { v.push_back({at + n.maxdelay * g.range(0, 10) * 0.1, seq++, rw, stamp}); ++r.faults["net_duplicate"]; }
            }
            double u = tick(t); real += u - t; t = u;
            if (t > until) break;
        }
        std::sort(v.begin(), v.end());
        double last = -1e300; for (auto &a : v) { if (a.t <= last) ++r.faults["net_out_of_order"]; else last = a.t; }
        return v;
    }
    void deliver(const Arr &a, const vector<string> &to) { now = std::max(now, a.at); r.simtime = now; for (auto &o : to) { vector<string> w{"add", o}; w.insert(w.end(), a.row.begin(), a.row.end()); op(w); lastt[o] = std::max(lastt.count(o) ? lastt[o] : -1e300, a.t); } }
    void sample(const string &o, double t) { vector<string> w{"add", o}; auto x = row(t); w.insert(w.end(), x.begin(), x.end()); op(w); lastt[o] = t; }
    double t0() { return t0s[g.below(t0s.size())]; }
    string cs() { return std::to_string(g.below(1000000)); }
    void ask(const string &o, const string &phi) { // one evaluation
        double t = t0();
        if (o[0] == 'd') { Op &x = op({"query", o, phi, d2s(t)}); x.kv["cs"] = cs(); if (t == 0 && g.chance(0.3)) x.kv["deft"] = "1"; }
        else if (g.chance(0.2)) { op({"etime", o, d2s(t), d2s(t)}); op({"eval", o}).kv["cs"] = cs(); }
        else op({"eval", o, d2s(t)}).kv["cs"] = cs();
    }
    void askw(const string &m) { double a = t0(), b = a + g.range(1, 8) * 0.25; if (g.chance(0.2)) { op({"etime", m, d2s(a), d2s(b)}); op({"eval", m}); } else op({"eval", m, d2s(a), d2s(b)}); }
    map<string, std::optional<double>> pnow;
    void setpar(const string &o) {
        if (pv.empty()) return; auto it = pv.begin(); std::advance(it, g.below(pv.size()));
        double v = it->first == "T" ? g.range(2, 8) * 0.25 : it->first == "s" ? g.range(0, 2) * 0.25 : g.range(-12, 12) * 0.25;
        auto &was = pnow[o + " " + it->first]; double prev = was ? *was : it->second;
        if (g.chance(0.15)) { v = prev; if (g.chance(0.8)) v += (it->first == "s" || g.chance(0.5) ? 1 : -1) * std::ldexp(1., -g.range(4, it->first == "s" || it->first == "T" ? 10 : 44)); if (it->first == "s" && v > 0.5) v = 0.25; if (it->first == "T" && v < 0.5) v = 0.5; } // hardly a change, or none
        was = v;
        op({"setp", o, it->first, d2s(v)}); ++r.faults["parameter_update"];
    }
    // ---------------------------------------------------------------- scenarios
    // one driver, perhaps monitors, one sample stream; used for the properties of partial and complete traces
    void stream(bool windows, const vector<string> &sems, bool final_flush, bool pchange) {
        config(); setup("d0");
        if (g.chance(0.25) && (dy || c.unit >= 0.25)) { op({"interp", "d0", "PREVIOUS"}); dy = true; }
        for (auto &s : sems) if (g.chance(1.0 / sems.size())) { op({"sem", "d0", s}); break; }
        vector<string> objs{"d0"}; map<string, string> phi;
        vector<string> feed; int nm = g.range(0, 2); bool usedriver = nm == 0 || g.chance(0.6) ;
        if (usedriver) feed.push_back("d0");
        double H = 0; for (auto &n : names) H = std::max(H, hor(n));
        double maxt0 = 0; for (double t : t0s) maxt0 = std::max(maxt0, t);
        double until = t0base + std::max(0.5, (maxt0 - t0base + H) * g.pick(vector<double>{0.5, 1, 1.3, 1.6}));
        int mr = 60; if (big) { mr = g.range(100, 300); until = std::max(until, t0base + mr * 0.1); }
        auto ar = deliveries(t0base, until, net(), mr);
        double pq = big ? 0.05 : g.pick(vector<double>{0.15, 0.4, 1});
        size_t mk = nm ? g.below(ar.size() / 2 + 1) : 0; bool made = false;
        vector<string> monitors;
        for (size_t i = 0; i <= ar.size(); ++i) {
            if (!made && nm && i >= mk) { for (int k = 0; k < nm; ++k) { string m = "m" + std::to_string(k); op({"getmon", "d0", g.pick(names), m}); lastt[m] = lastt.count("d0") ? lastt["d0"] : -1e300; feed.push_back(m); monitors.push_back(m); } made = true; }
            if (i == ar.size()) break;
            deliver(ar[i], feed);
            if (g.chance(pq)) for (auto &o : feed) if (g.chance(0.7)) { if (o[0] == 'd') ask(o, g.pick(names)); else if (windows && g.chance(0.4)) askw(o); else ask(o, ""); }
            if (feed.empty()) continue;
            if (pchange && g.chance(0.1)) setpar(g.pick(feed));
            if (sems.size() > 1 && g.chance(0.1)) op({"sem", g.pick(feed), g.pick(sems)});
        }
        if (final_flush) { // faults stop: the stream goes on until everything is covered
            double t = t0base; for (auto &o : feed) if (lastt.count(o)) t = std::max(t, lastt[o]);
            double end = maxt0 + H + (windows ? 2.0 : 0); int n = 0;
            while (t < end && n++ < 40) { t = tick(t); if (n > 30) t = end + 0.5; for (auto &o : feed) sample(o, t); }
            if (g.chance(0.5)) { t = tick(t); for (auto &o : feed) sample(o, t); }
            now = std::max(now, t); r.simtime = now;
            for (auto &o : feed) for (int k = 0; k < (int)t0s.size() + 1; ++k) { if (o[0] == 'd') for (auto &p : names) ask(o, p); else if (windows) { askw(o); ask(o, ""); } else ask(o, ""); }
            if (g.chance(0.5)) { for (int k = 0; k < 2; ++k) { t = tick(t); for (auto &o : feed) sample(o, t); } for (auto &o : feed) { if (o[0] == 'd') ask(o, g.pick(names)); else ask(o, ""); } }
        }
    }
    void badrow(const string &o) {
        double l = lastt.count(o) ? lastt[o] : 0; auto x = row(l + 0.25); int k = g.range(0, 7); string kind;
        switch (k) {
        case 0: x.pop_back(); kind = "row_truncated"; break;
        case 1: x.push_back("1"); kind = "row_oversized"; break;
        case 2: x[0] = "nan"; kind = "row_nan_time"; break;
        case 3: x[0] = d2s(l); kind = "row_same_time"; break;
        case 4: x[0] = d2s(l - g.range(1, 20) * 0.125); kind = "row_stale"; break;
        case 5: x[0] = d2s(std::nextafter(l, -1e9)); kind = "row_stale_ulp"; break;
        case 6: x[0] = "-inf"; kind = "row_minus_inf"; break;
        default: x.resize(1); kind = "row_time_only"; break;
        }
        ++r.faults[kind]; vector<string> w{"add", o}; w.insert(w.end(), x.begin(), x.end()); op(w);
    }
    void ingest() {
        config(); setup("d0"); vector<string> feed{"d0"};
        int nm = g.range(0, 2); auto n = net(); n.dup = std::max(n.dup, 0.15); n.late = std::max(n.late, 0.15); double H = hor(names[0]);
        auto ar = deliveries(t0base, t0base + H + (big ? 60 : 2), n, big ? 300 : 40); size_t mk = g.below(ar.size() + 1);
        for (size_t i = 0; i < ar.size(); ++i) {
            if (nm && i == mk) for (int k = 0; k < nm; ++k) { string m = "m" + std::to_string(k); op({"getmon", "d0", g.pick(names), m}); if (lastt.count("d0")) lastt[m] = lastt["d0"]; feed.push_back(m); }
            deliver(ar[i], feed);
            if (g.chance(0.3)) badrow(g.pick(feed));
            if (g.chance(0.05)) { string o = g.pick(feed); double t = lastt.count(o) ? std::nextafter(lastt[o], 1e9) : 0; sample(o, t); ++r.faults["row_next_ulp"]; }
            if (g.chance(0.2)) for (auto &o : feed) ask(o, g.pick(names));
            if (g.chance(0.03)) { string o = g.pick(feed); if (o[0] == 'm') { op({"clear", o}); lastt.erase(o); } }
            if (g.chance(0.02)) { op({"parse", "d0", "string", "param zq = 1\n"}); }
        }
        for (auto &o : feed) ask(o, g.pick(names));
    }
    // arbitrary sequences of public operations
    void mix(int nd, int nm, bool copies, bool prints) {
        config(); int n = g.range(20, 60); vector<string> D, M;
        for (int i = 0; i < nd; ++i) { string d = "d" + std::to_string(i); D.push_back(d); auto keep = names; auto kf = forms; names.clear(); forms.clear(); setup(d); if (i) { for (auto &x : keep) if (!forms.count(x)) { names.push_back(x); forms[x] = kf[x]; } } if (g.chance(0.3)) op({"interp", d, "PREVIOUS"}); if (g.chance(0.3)) op({"sem", d, g.chance(0.5) ? "LEFT_TIME" : "RIGHT_TIME"}); }
        for (int i = 0; i < nm; ++i) M.push_back("m" + std::to_string(i));
        map<string, double> tt; int extra = 0;
        auto any = [&]() -> string { size_t k = g.below(D.size() + M.size()); return k < D.size() ? D[k] : M[k - D.size()]; };
        for (int i = 0; i < n; ++i) {
            string o = any(); now += 0.01;
            switch (g.range(0, 15)) {
            case 0: case 1: case 2: case 3: { int k = big ? g.range(1, 60) : g.range(1, 4); for (int j = 0; j < k; ++j) { tt[o] = tt.count(o) ? tick(tt[o]) : t0base; sample(o, tt[o]); } break; }
            case 4: case 5: case 6: ask(o, g.pick(names)); break;
            case 7: if (o[0] == 'm') askw(o); else ask(o, g.pick(names)); break;
            case 8: if (!M.empty()) { string m = g.pick(M); op({"getmon", g.pick(D), g.pick(names), m}); tt[m] = 30 + i; } break;
            case 9: op({"sem", o, g.pick(vector<string>{"SPACE", "SPACE", "LEFT_TIME", "RIGHT_TIME"})}); break;
            case 10: op({"interp", o, g.chance(0.6) ? "LINEAR" : "PREVIOUS"}); break;
            case 11: setpar(o); break;
            case 12: if (prints) { if (g.chance(0.4)) op({"dump", g.pick(D)}); else op({"print", o}); } else badrow(o); break;
            case 13: if (g.chance(0.5)) { string nm = "x" + std::to_string(extra++); F f = formula(); op({"parse", g.pick(D), "string", nm + " := " + pr(f) + "\n"}); names.push_back(nm); forms[nm] = f; } else { op({"parse", g.pick(D), "string", "broken := (x[t] > \n"}); ++r.faults["bad_text"]; } break;
            case 14: if (copies) { string b = o[0] == 'd' ? g.pick(D) : g.pick(M); op({g.chance(0.5) ? "copy" : "assign", o, b}); tt[b] = std::max(tt[o], tt[b]); } else if (g.chance(0.2)) op({"clear", o}); break;
            default: if (g.chance(0.2)) { string b = g.pick(D); op({"clear", b}); string t; for (auto &p : pv) t += "param " + p.first + " = " + gen::num(p.second) + "\n"; if (!names.empty()) { string nn = names[0]; t += nn + " := " + pr(forms[nn]) + "\n"; } op({"parse", b, "string", t}); } else if (!M.empty() && g.chance(0.3)) { string m = g.pick(M); op({"clear", m}); tt.erase(m); } else if (g.chance(0.2)) op({"del", any()}); break;
            }
        }
        for (auto &o : D) ask(o, g.pick(names));
        for (auto &o : M) ask(o, "");
        r.simtime = now;
    }
    void lifecycle(bool oom) {
        config(); c.depth = std::min(c.depth, 2); int n = g.range(10, 40); vector<string> D{"d0", "d1", "d2"}, M{"m0", "m1", "m2"}; setup("d0"); double t = t0base; int tn = 0;
        double pf = oom ? 0.5 : 0; auto fail = [&](Op &o) { if (oom && g.chance(pf)) o.kv["fail"] = std::to_string(g.chance(0.6) ? g.range(1, 8) : g.range(1, 200)); };
        for (int i = 0; i < n; ++i) {
            string a = g.pick(D), b = g.pick(D), m = g.pick(M), m2 = g.pick(M); now += 0.01;
            switch (g.range(0, 16)) {
            case 0: { t = tick(t); vector<string> w{"add", g.chance(0.5) ? a : m}; auto x = row(t); w.insert(w.end(), x.begin(), x.end()); fail(op(w)); break; }
            case 1: { for (int k = big ? 40 : 3; k > 0; --k) { t = tick(t); sample(a, t); } break; }
            case 2: { Op &o = op({"query", a, g.pick(names), d2s(t0())}); fail(o); break; }
            case 3: { Op &o = op({"eval", m, d2s(t0())}); fail(o); break; }
            case 4: fail(op({"copy", a, b})); break;
            case 5: fail(op({"assign", a, b})); break;
            case 6: fail(op({"copy", m, m2})); break;
            case 7: fail(op({"assign", m, m2})); break;
            case 8: if (!oom || g.chance(0.3)) op({"move", a, b}); break;
            case 9: if (!oom || g.chance(0.3)) op({"massign", a, b}); break;
            case 10: op({g.chance(0.5) ? "move" : "massign", m, m2}); break;
            case 11: case 12: fail(op({"getmon", a, g.pick(names), m})); break;
            case 13: { string tx; if (g.chance(0.6)) { string nm = "n" + std::to_string(tn++); tx = nm + " := " + pr(formula()) + "\n"; } else { string id = "tt" + std::to_string(tn++); tx = "test " + id + " : \"e\" {\n a" + id + " { " + pr(formula()) + ", \"yes\", \"no\", true }\n b" + id + " { " + pr(formula(1)) + ", \"\", \"\", false }\n a" + id + "\n}\n"; }
                fail(op({"parse", a, "string", tx})); break; }
            case 14: if (g.chance(0.3)) op({"clear", a}); else if (g.chance(0.3)) op({"clear", m}); break;
            case 15: op({"del", g.chance(0.5) ? a : m}); if (g.chance(0.3)) { op({"new", a}); op({"parse", a, "string", decls()}); } break;
            default: if (g.chance(0.6)) { if (!oom) op({"runtests", a}); } else if (g.chance(0.3)) op({"newdata", a, b}); else op({"setp", a, "p", "1.5"}); break;
            }
        }
        for (auto &d : D) op({"query", d, g.pick(names), d2s(t0())});
        for (auto &m : M) op({"eval", m, d2s(t0())});
        vector<string> all = D; all.insert(all.end(), M.begin(), M.end()); while (!all.empty()) { size_t k = g.below(all.size()); op({"del", all[k]}); all.erase(all.begin() + k); }
        r.simtime = now;
    }
    void threads() {
        config(); int n = g.range(2, 4); vector<string> objs; c.depth = std::min(c.depth, 2);
        bool pre = g.chance(0.5); string txt;
        auto spec = [&] { names.clear(); forms.clear(); string t = decls(); int nf = g.range(1, 2); for (int i = 0; i < nf; ++i) t += fdef(string("phi") + char('a' + i)); return t; };
        vector<vector<string>> nm(n); vector<string> texts(n);
        for (int i = 0; i < n; ++i) { texts[i] = spec(); nm[i] = names; }
        if (pre) for (int i = 0; i < n; ++i) { string d = "d" + std::to_string(i); op({"new", d}); op({"parse", d, "string", texts[i]}); if (g.chance(0.5)) for (int k = 0; k < 3; ++k) sample(d, t0base + k); }
        if (pre && g.chance(0.4)) for (int i = 1; i < n; ++i) { op({"assign", "d0", "d" + std::to_string(i)}); nm[i] = nm[0]; }
        op({"threads", std::to_string(n)}, {{"seed", std::to_string(g.next() >> 16)}, {"gap", g.pick(vector<string>{"20", "60", "200", "1000", "5000"})}});
        vector<vector<Op>> th(n); 
        for (int i = 0; i < n; ++i) {
            size_t mark = r.ops.size(); string d = "d" + std::to_string(i), m = "m" + std::to_string(i); names = nm[i];
            if (!pre) { op({"new", d}); op({"parse", d, g.pick(vector<string>{"string", "stream", "file"}), texts[i]}); }
            if (g.chance(0.7)) op({"sem", d, g.pick(vector<string>{"SPACE", "LEFT_TIME", "RIGHT_TIME"})});
            if (g.chance(0.7)) op({"interp", d, g.pick(vector<string>{"LINEAR", "PREVIOUS"})});
            double t = t0base + 5; int k = g.range(3, 8);
            for (int j = 0; j < k; ++j) { sample(d, t); t = tick(t); if (g.chance(0.5)) ask(d, g.pick(names)); }
            op({"getmon", d, g.pick(names), m}); ask(m, ""); if (g.chance(0.5)) { op({"sem", m, g.pick(vector<string>{"SPACE", "LEFT_TIME", "RIGHT_TIME"})}); sample(m, t); askw(m); }
            if (g.chance(0.3)) op({"parse", d, "string", "z" + string(1, 'a' + i) + " := (x[t] > 0.5)\n"});
            if (g.chance(0.3)) op({"print", d}); if (g.chance(0.3)) op({"print", m});
            if (g.chance(0.3)) op({"copy", m, "m" + std::to_string(4 + i)});
            if (g.chance(0.3)) { setpar(g.chance(0.5) ? d : m); ask(m, ""); }
            if (g.chance(0.3)) op({"parse", d, "string", "test u" + string(1, 'a' + i) + " : \"e\" {\n  v" + string(1, 'a' + i) + " { " + pr(formula(1)) + ", \"pos\", \"neg\", true }\n}\n"});
            if (g.chance(0.4)) op({"runtests", d});
            if (g.chance(0.3)) { string f = "th" + std::to_string(i) + ".dat"; op({"dumptrace", d, f}); if (g.chance(0.5)) sample(d, t + 1); op({"readtrace", d, f}); }
            if (g.chance(0.1)) { op({"clear", d}); op({"parse", d, "string", texts[i]}); sample(d, t0base); sample(d, t0base + 2); }
            ask(d, g.pick(names));
            th[i].assign(r.ops.begin() + mark, r.ops.end()); r.ops.resize(mark); for (auto &o : th[i]) o.kv["th"] = std::to_string(i);
        }
        for (auto &v : th) for (auto &o : v) r.ops.push_back(o);
        op({"join"}); r.simtime = 1;
    }
    // ---------------------------------------------------------------- texts
    string vary(const string &t) { // same meaning, other spelling
        string o; size_t i = 0; double pc = g.chance(0.5) ? 0.1 : 0, pn = g.chance(0.5) ? 0.3 : 0;
        auto word = [&](const char *w) { size_t l = strlen(w); return t.compare(i, l, w) == 0 && (i == 0 || !(isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_')) ; };
        bool str = false;
        while (i < t.size()) {
            if (t[i] == '"') str = !str;
            if (!str && word("ev_[")) { o += g.pick(vector<string>{"ev_", "ev", "F_", "F", "<>_", "<>", "ev_ "}); i += 3; continue; }
            if (!str && word("alw_[")) { o += g.pick(vector<string>{"alw_", "alw", "G_", "G", "[]_", "[]", "alw "}); i += 4; continue; }
            if (!str && word("until_[")) { o += g.pick(vector<string>{"until_", "until", "U", "U_"}); i += 6; continue; }
            if (!str && t.compare(i, 5, " and ") == 0) { o += g.pick(vector<string>{" and ", " & ", "&", " and\n"}); i += 5; continue; }
            if (!str && t.compare(i, 4, " or ") == 0) { o += g.pick(vector<string>{" or ", " | ", "|"}); i += 4; continue; }
            if (!str && t.compare(i, 4, " => ") == 0) { o += g.pick(vector<string>{" => ", " -> ", "=>"}); i += 4; continue; }
            if (!str && t.compare(i, 5, "(not ") == 0) { o += g.pick(vector<string>{"(not ", "(! ", "(!"}); i += 5; continue; }
            if (!str && t.compare(i, 3, " > ") == 0) { o += g.pick(vector<string>{" > ", " >= ", ">", ">="}); i += 3; continue; }
            if (!str && t.compare(i, 3, " < ") == 0) { o += g.pick(vector<string>{" < ", " <= ", "<", "<= "}); i += 3; continue; }
            if (!str && isdigit((unsigned char)t[i]) && pn > 0 && (i == 0 || !(isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_' || t[i - 1] == '.')) && g.chance(pn)) { // other spellings of a number
                size_t q = i; while (q < t.size() && (isdigit((unsigned char)t[q]) || t[q] == '.')) ++q;
                string n = t.substr(i, q - i); size_t dot = n.find('.'); bool sign = i && (t[i - 1] == '-' || t[i - 1] == '+');
                if (dot == string::npos) n = g.pick(vector<string>{n + ".", "0" + n, n + ".0", n});
                else switch (g.range(0, 3)) {
                    case 0: if (n.substr(dot) == ".0") n = n.substr(0, dot + g.range(0, 1)); break;
                    case 1: if (n[0] == '0' && dot == 1 && n.size() > 2) n = n.substr(1); break;
                    case 2: n = "00" + n + "000"; break;
                    default: if (!sign) n = "+" + n; break;
                }
                o += n; i = q; continue;
            }
            if (!str && (t[i] == ' ' || t[i] == '\n')) {
                if (g.chance(pc)) o += g.pick(vector<string>{"  ", "\t", "\n", "\r\n", " # a comment (x[t] > \"\n", g.chance(0.5) ? string(" # caf\xc3\xa9 \x80\xff\n") : string(" #\0#\0\n", 6), "\n#\n", " \n \n"}); else o += t[i];
                ++i; continue;
            }
            o += t[i++];
        }
        return o;
    }
    string local() { if (!texts || !g.chance(0.25)) return ""; string t = " ("; int k = g.range(1, 3); for (int i = 0; i < k; ++i) t += (i ? ", " : "") + (!pars.empty() && g.chance(0.6) ? g.pick(pars) : "lp" + std::to_string(g.range(0, 2))) + " = " + gen::num(g.range(-8, 8) * 0.5); return t + ")"; }
    bool texts = false;
    string testblock(bool inl_only = false) {
        string id = "tr" + std::to_string(tests.size()) + string(1, 'a' + g.below(26)); string t = "test " + id + " : \"env " + id + (texts && g.chance(0.1) ? g.pick(vector<string>{"\xc3\xa9", "\x80", " # {", string(" \0 ", 3), "\n"}) : string()) + "\""; if (g.chance(0.5)) t += ", " + gen::num(g.range(0, 40) * 0.25) + ", " + (g.chance(0.5) ? "true" : "false"); t += " {\n";
        int k = g.chance(0.03) ? g.range(4, 12) : g.range(1, 3);
        for (int i = 0; i < k; ++i) {
            if (!inl_only && !tests.empty() && g.chance(0.4)) { t += "  " + g.pick(tests) + local() + "\n"; continue; }
            string n = "t" + std::to_string(tests.size()) + "q"; string body = !names.empty() && g.chance(0.3) ? g.pick(names) : pr(formula(g.range(0, 2)));
            t += "  " + n + local() + " { " + body + ", \"" + (g.chance(0.3) ? "" : "pos " + n) + "\", \"" + (g.chance(0.3) ? "" : "neg " + n) + "\", " + (g.chance(0.5) ? "true" : "false") + " }\n"; tests.push_back(n);
        }
        return t + "}\n";
    }
    string text(bool first, bool withtests, int nf) {
        string t; if (first) t = decls();
        for (int i = 0; i < nf; ++i) { if (withtests && g.chance(0.25)) t += testblock(); else if (g.chance(0.1)) { string p = "k" + std::to_string(names.size()); t += "param " + p + " = " + gen::num(g.range(-20, 20) * 0.25) + "\n"; } else t += fdef("f" + std::to_string(names.size())); }
        return t;
    }
    string chunks() { int k = g.range(0, 3); if (k == 0) return "1"; string s; int n = g.range(1, 6); for (int i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(k == 1 ? g.range(1, 4) : k == 2 ? g.range(1, 40) : g.range(1, 9000)); return s; }
    void usedefs(const string &d) { for (int k = 0; k < 4; ++k) sample(d, t0base + (lastt.count(d) ? lastt[d] + 0.5 - t0base : 0)); for (int k = 0; k < 2 && !names.empty(); ++k) op({"query", d, g.pick(names), d2s(t0())}); }
    void parsing(bool faulty) {
        config(); texts = true; op({"new", "d0"}); int n = g.range(1, 3);
        for (int i = 0; i < n; ++i) {
            int nf = g.chance(0.08) ? g.range(40, 120) : g.range(1, 6);
            if (nf > 10) c.depth = 3;
            string t = text(i == 0, true, nf); if (g.chance(0.7)) t = vary(t);
            if (g.chance(0.05)) t += string(g.range(100, 9000), ' '); 
            if (g.chance(0.05)) { size_t p = t.find('\n'); if (p != string::npos) t.insert(p + 1, "#" + string(g.range(10, 20000), 'c') + "\n"); }
            long cut = -1;
            if (g.chance(0.15)) { // some position of the text falls on the end of the scanner's buffer
                size_t p = t.find('\n', g.below(t.size())); if (p != string::npos) { size_t c = g.chance(0.4) ? p + 1 : p + 1 + g.below(t.size() - p); long block = 8192 * g.range(1, 2); long pad = block - (long)c;
                    if (pad > 3) { t.insert(p + 1, g.chance(0.7) ? "#" + string(pad - 2, 'c') + "\n" : string(pad, ' ')); cut = block; } }
            }
            string mode = g.pick(vector<string>{"string", "stream", "stream", "file"});
            Op o; o.a = {"parse", "d0", mode, t};
            if (mode == "stream") o.kv["chunks"] = chunks();
            if (mode == "file") { if (g.chance(0.5)) o.kv["short"] = std::to_string(g.range(1, 50)); if (g.chance(0.4)) o.kv["eintr"] = std::to_string(g.range(2, 5)); }
            if (faulty && (i + 1 == n || g.chance(0.7))) {
                int k = g.range(0, 5); long at = (long)g.below(t.size() + 1); if (cut >= 0 && g.chance(0.8)) at = std::min((long)t.size(), cut + (g.chance(0.5) ? 0 : g.range(-30, 30)));
                if (k == 0 || (k <= 2 && mode == "string")) { // malformed
                    static const vector<string> junk{"@", "$", "?", " undefinedname ", " := ", " ( ", " ] ", " , ", "\"", " test ", " => ", string("\0", 1), string(" \0 ", 3), "\x01", "\x7f", "\x80", "\xc3\xa9", " \xff ", "\xef\xbb\xbf"};
                    string j = g.pick(junk); size_t p = at; if (g.chance(0.5)) { p = t.find('\n', at); if (p == string::npos) p = t.size(); }
                    else if (g.chance(0.1)) { p = t.find('\n', at); if (p == string::npos) p = t.size(); j = " ) "; }
                    t.insert(p, j); ++r.faults["bad_text"]; o.a[3] = t;
                } else if (k == 1 && mode == "stream") { o.kv["at"] = std::to_string(at); o.kv["how"] = "throw"; }
                else if (k == 2 && mode == "stream") { o.kv["at"] = std::to_string(at); o.kv["how"] = "eof"; }
                else if (mode == "file" && k <= 2) { o.kv["rlimit"] = std::to_string(at); o.kv["err"] = "5"; }
                else if (mode == "file" && k == 3) { o.kv["open"] = g.chance(0.5) ? "2" : "24"; }
                else if (mode == "file" && k >= 4) o.kv["trunc"] = std::to_string(at);
                else { o.a[3] = t.substr(0, at); ++r.faults["truncated_text"]; }
            }
            r.ops.push_back(o);
            if (g.chance(0.5)) usedefs("d0");
            if (!faulty && g.chance(0.3)) op({"print", "d0"});
        }
        if (faulty) { string nm = "after"; F f = formula(1); op({"parse", "d0", "string", "after := " + pr(f) + "\n"}); names.push_back(nm); }
        usedefs("d0"); r.simtime = 1;
    }
    void diskfault(Op &o, bool wr) {
        int far = big ? g.pick(vector<int>{300, 9000, 40000}) : 300;
        int k = g.range(0, 6);
        switch (k) {
        case 0: o.kv["short"] = std::to_string(g.range(1, 30)); break;
        case 1: o.kv["eintr"] = std::to_string(g.range(2, 4)); if (g.chance(0.5)) o.kv["short"] = std::to_string(g.range(1, 30)); break;
        case 2: if (wr) { o.kv["wlimit"] = std::to_string(g.range(0, far)); o.kv["err"] = g.chance(0.5) ? "28" : "5"; } else { o.kv["rlimit"] = std::to_string(g.range(0, far)); o.kv["err"] = "5"; } break;
        case 3: o.kv["open"] = wr ? "28" : "13"; break;
        case 4: if (wr) o.kv["close"] = "5"; break;
        case 5: if (wr) { o.kv["wlimit"] = std::to_string(g.range(0, far)); o.kv["lost"] = "1"; } break;
        default: break;
        }
    }
    void storage() {
        config(); c.depth = 1; setup("d0", 2); string tb = testblock(); op({"parse", "d0", "string", tb}); double t = t0base; int n = g.range(3, 10);
        for (int i = 0; i < n; ++i) {
            int k = big ? g.range(1, 700) : g.range(1, 12); for (int j = 0; j < k; ++j) { t = g.chance(0.2) ? t + g.range(1, 1000000) * 1e-7 : tick(t); vector<string> w{"add", "d0", d2s(t)}; for (int s = 0; s < c.nsig; ++s) { double v = value(s); if (g.chance(0.4)) v = (double)(int64_t)(g.next() >> 12) / 3.0e11 * (g.chance(0.5) ? 1 : -1); if (g.chance(0.05)) v = g.pick(vector<double>{1e-300, 123456789.125, -1e15, 5e-324, 0.1, 1e22}); w.push_back(d2s(v)); } op(w); now += 0.1; }
            string f = "t" + std::to_string(g.range(0, 1)) + ".dat";
            Op *o; 
            switch (g.range(0, 9)) {
            case 0: case 1: case 2: case 3: o = &op({"dumptrace", "d0", f}); if (g.chance(0.5)) diskfault(*o, true); if (g.chance(0.25)) op({"tear", f, std::to_string(g.below(big ? 80000 : 4000))}, {{"mod", "1"}}); op({"new", "d1"}); op({"parse", "d1", "string", decls()}); o = &op({"readtrace", "d1", f}); if (g.chance(0.3)) diskfault(*o, false); if (g.chance(0.3)) { ++r.faults["restart"]; o = &op({"readtrace", "d0", f}); t = std::max(t, t0base) + 1; } break;
            case 4: { o = &op({"readtrace", "d0", g.chance(0.3) ? "missing.dat" : f}); if (g.chance(0.5)) diskfault(*o, false); break; }
            case 5: o = &op({"dumplog", "d0", "log.txt"}); if (g.chance(0.6)) diskfault(*o, true); break;
            case 6: o = &op({"dump", "d0"}); if (g.chance(0.5)) diskfault(*o, true); break;
            case 7: { string x; int L = big ? g.range(0, 500) : g.range(0, 6); bool cr = g.chance(0.2); for (int q = 0; q < L; ++q) { int cols = c.nsig + 1 + (g.chance(0.1) ? g.range(-1, 1) : 0); for (int w = 0; w < cols; ++w) { if (w || g.chance(0.1)) x += g.pick(vector<string>{" ", "\t", "  "}); x += g.chance(0.04) ? g.pick(vector<string>{"abc", "1.5x", "--3", ",", "1,2"}) : d2s(w == 0 ? q * 0.5 : g.range(-99, 99) * 0.37); } if (g.chance(0.3)) x += " "; if (cr) x += "\r"; if (q + 1 < L || g.chance(0.6)) x += "\n"; if (g.chance(0.1)) x += "\n"; }
                op({"mkfile", "u.dat", x}); o = &op({"readtrace", "d0", "u.dat"}); if (g.chance(0.2)) diskfault(*o, false); break; }
            default: op({"runtests", "d0"}); if (g.chance(0.5)) op({"parse", "d0", "string", testblock()}); break;
            }
        }
        r.simtime = now;
    }
    void params() {
        config(); c.par = true; pars = {"p", "q"}; tpars = {"T", "s"}; for (auto &p : pars) if (!pv.count(p)) pv[p] = g.range(-6, 6) * 0.5; if (!pv.count("T")) { pv["T"] = 1; pv["s"] = 0.25; } c.params = pars; c.arith = g.chance(0.7);
        setup("d0"); vector<string> objs{"d0"}; auto ar = deliveries(t0base, t0base + 6, net(), 30); int nm = 0;
        if (g.chance(0.3)) op({"interp", "d0", "PREVIOUS"}); if (g.chance(0.2)) op({"sem", "d0", "LEFT_TIME"});
        for (auto &a : ar) {
            deliver(a, objs); string o = g.pick(objs);
            if (g.chance(0.3)) setpar(o);
            if (g.chance(0.05)) op({"setp", o, "nosuch", "3"});
            if (g.chance(0.1) && nm < 3) { string m = "m" + std::to_string(nm++); op({"getmon", "d0", g.pick(names), m}); objs.push_back(m); }
            if (g.chance(0.1)) { string p = g.pick(pars); op({"parse", "d0", "string", "param " + p + " = " + gen::num(g.range(-8, 8) * 0.5) + "\n"}); }
            if (g.chance(0.05)) { string m = g.pick(objs); if (m[0] == 'm') op({"copy", m, "m4"}); }
            if (g.chance(0.05)) { F f = formula(); string nn = "g" + std::to_string(names.size()); op({"parse", "d0", "string", nn + " := " + pr(f) + "\n"}); names.push_back(nn); forms[nn] = f; }
            if (g.chance(0.5)) ask(o, g.pick(names));
        }
        for (auto &o : objs) { setpar(o); ask(o, g.pick(names)); if (o[0] == 'm') askw(o); }
    }
    void tracetests() {
        config(); if (began) { t0base = 0; began = 0; } setup("d0"); double t = t0base; int n = g.range(6, 20);
        if (g.chance(0.3)) op({"interp", "d0", "PREVIOUS"}); if (g.chance(0.2)) op({"sem", "d0", g.chance(0.5) ? "LEFT_TIME" : "RIGHT_TIME"});
        op({"parse", "d0", "string", testblock()}); t0base = 0;
        for (int i = 0; i < n; ++i) {
            now += 0.1;
            switch (g.range(0, 9)) {
            case 0: case 1: { int k = g.range(1, 5); for (int j = 0; j < k; ++j) { sample("d0", t); t = tick(t); } break; }
            case 2: case 3: case 4: { Op &o = op({"runtests", "d0"}); if (g.chance(0.3)) o.kv["next"] = "1"; break; }
            case 5: op({"parse", "d0", "string", testblock()}); break;
            case 6: setpar("d0"); break;
            case 7: ask("d0", g.pick(names)); break;
            case 8: if (g.chance(0.4)) op({"poptest", "d0"}); else if (g.chance(0.3)) { op({"copy", "d0", "d1"}); op({"runtests", "d1"}); } else op({"dumplog", "d0", "l.txt"}); break;
            default: if (g.chance(0.15)) { op({"clear", "d0"}); tests.clear(); names.clear(); forms.clear(); string tt; bool first = true; for (auto &p : pv) { tt += (first ? "param " : ", ") + p.first + " = " + gen::num(p.second); first = false; } tt += "\n" + fdef("fresh" + std::to_string(i)); op({"parse", "d0", "string", tt + testblock()}); } else if (g.chance(0.3)) op({"sem", "d0", g.pick(vector<string>{"SPACE", "LEFT_TIME", "RIGHT_TIME"})}); break;
            }
        }
        op({"runtests", "d0"}); op({"runtests", "d0"}); op({"runtests", "d0"}); r.simtime = now;
    }
    // long traces, deep formulas, long texts: how the work grows
    F chain(int depth, F f = nullptr) {
        int style = g.range(0, 4); if (!f) f = gen::atom(g, c);
        for (int i = 0; i < depth; ++i) {
            auto n = std::make_shared<Form>(); int k = style == 4 ? g.range(0, 5) : style;
            if (k == 0) { n->k = Form::NOT; n->l = f; }
            else if (k == 1) { n->k = g.chance(0.5) ? Form::AND : Form::OR; n->l = f; n->r = gen::atom(g, c); }
            else if (k == 2) { n->k = g.chance(0.5) ? Form::EV : Form::ALW; n->a.v = g.range(0, 1) * 0.25; n->b.v = n->a.v + 0.25; n->l = f; }
            else if (k == 3) { n->k = g.chance(0.5) ? Form::AND : Form::IMP; n->l = gen::atom(g, c); n->r = f; }
            else if (k == 4) { n->k = Form::IMP; n->l = f; n->r = gen::atom(g, c); }
            else { n->k = Form::UNTIL; n->a.v = 0; n->b.v = 0.5; n->l = gen::atom(g, c); n->r = f; }
            f = n;
        }
        return f;
    }
    void progress() {
        config(); began = 0; t0base = 0; int regime = g.range(0, 9); int rows = g.range(20, 60);
        if (regime < 6) { rows = g.pick(vector<int>{200, 500, 1000, 2000, 4000}); c.depth = g.range(0, 2); c.unit = g.pick(vector<double>{0.25, 1, 16, 100}); }
        bool longest = regime == 0 && g.chance(0.3); if (longest) { rows = 12000; c.unit = g.pick(vector<double>{16, 100, 1000, 4000}); c.nsig = 1; }
        bool deep = regime == 6 || regime == 7, longtext = regime >= 8;
        op({"new", "d0"}); string t = decls();
        if (deep) { int k = g.range(1, 2); for (int i = 0; i < k; ++i) { string n = "phi" + string(1, char('a' + i)); F f = chain(g.chance(0.3) ? g.range(50, 150) : g.range(8, 50)); forms[n] = f; names.push_back(n); t += n + " := " + (g.chance(0.5) ? pr(f) : gen::print(f)) + "\n"; } }
        else if (longest && g.chance(0.7)) { auto n = std::make_shared<Form>(); n->k = g.chance(0.5) ? Form::EV : Form::ALW; n->a.v = g.range(0, 1); n->b.v = g.pick(vector<double>{100, 1000, 4000}); n->l = gen::atom(g, c); forms["f0"] = n; names.push_back("f0"); t += "f0 := " + pr(n) + "\n"; }
        else { int nf = longtext ? g.range(30, 300) : g.range(1, 3); if (longtext) c.depth = 1; texts = longtext; for (int i = 0; i < nf; ++i) { if (longtext && g.chance(0.3)) t += testblock(); else if (longtext && g.chance(0.1)) t += "#" + string(g.range(10, 3000), 'c') + "\n"; else t += fdef("f" + std::to_string(i)); } texts = false; }
        Op &pa = op({"parse", "d0", g.pick(vector<string>{"string", "stream", "file"}), t}); if (pa.a[2] == "stream") pa.kv["chunks"] = chunks();
        if (g.chance(0.3)) op({"interp", "d0", "PREVIOUS"}); if (g.chance(0.2)) op({"sem", "d0", g.chance(0.5) ? "LEFT_TIME" : "RIGHT_TIME"});
        vector<string> feed{"d0"}; int nm = g.range(0, 2); auto ne = net(); ne.skew = 0; double until = 1e9;
        vector<int> ramp; for (int i = 0; i < c.nsig; ++i) ramp.push_back(longest && g.chance(0.7) ? (g.chance(0.5) ? 2 : -2) : g.range(-2, 2)); bool shaped = longest || g.chance(0.5);
        auto ar = deliveries(0, until, ne, rows); size_t step = std::max<size_t>(1, ar.size() / g.range(3, 6)); int i = 0; string sh = g.pick(vector<string>{"m0", "m1"});
        for (size_t k = 0; k < ar.size(); ++k) {
            if (shaped) for (int s = 0; s < c.nsig; ++s) if (ramp[s]) ar[k].row[s + 1] = d2s(ramp[s] == 2 ? (double)k * 0.015625 - 8 : ramp[s] == -2 ? 8 - (double)k * 0.015625 : ramp[s] == 1 ? std::fabs((double)(k % 400) - 200) * 0.0625 : ((k ^ s) & 1 ? 4. : -4.) + (double)(k % 7) * 0.125);
            deliver(ar[k], feed); if (ne.dup && g.chance(0.002)) badrow("d0");
            if (k % step == step - 1) {
                double T = lastt["d0"];
                if (i++ < nm) { string m = "m" + std::to_string(i - 1); op({"getmon", "d0", g.pick(names), m}); lastt[m] = T; feed.push_back(m); }
                string o = g.pick(feed); double a = g.chance(0.4) ? 0 : std::floor(g.below(1000) * 0.001 * T * 4) / 4, b = a + std::floor(g.below(1000) * 0.001 * (T - a) * 4) / 4;
                if (o[0] == 'd') op({"query", o, g.pick(names), d2s(a)}); else if (g.chance(0.7)) op({"eval", o, d2s(a), d2s(b)}); else op({"eval", o, d2s(a)});
                if (g.chance(0.3) && o[0] == 'm') op({"eval", o, d2s(a), d2s(b)});
                if (g.chance(0.2)) setpar(o);
                if (g.chance(0.1)) { op({"copy", o, o[0] == 'd' ? "d1" : "m2"}); }
                if (g.chance(0.1)) op({"print", o});
                if (g.chance(0.1)) { Op &x = op({"dumptrace", "d0", "t0.dat"}); if (g.chance(0.5)) x.kv["short"] = std::to_string(g.range(20, 200)); op({"new", "d2"}); op({"parse", "d2", "string", decls()}); Op &y = op({"readtrace", "d2", "t0.dat"}); if (g.chance(0.5)) y.kv["short"] = std::to_string(g.range(20, 200)); }
                if (longtext) op({"runtests", "d0"});
            }
        }
        for (auto &o : feed) { if (o[0] == 'd') op({"query", o, g.pick(names), "0"}); else op({"eval", o, "0", d2s(lastt[o] / 2)}); }
        r.simtime = now;
    }
};
inline string renamed(const string &t, map<string, string> &to) {
    string o; bool str = false, com = false;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '\n') com = false; else if (t[i] == '#' && !str) com = true; else if (t[i] == '"' && !com) str = !str;
        size_t q = i; while (q < t.size() && (isalnum((unsigned char)t[q]) || t[q] == '_')) ++q;
        if (q == i) { o += t[i++]; continue; }
        string w = t.substr(i, q - i); o += !str && !com && to.count(w) ? to[w] : w; i = q;
    }
    return o;
}
inline Run make(const string &p, uint64_t seed) {
    uint64_t x = seed; for (char ch : p) x = x * 1099511628211ull + (unsigned char)ch;
    W w(p, x); w.r.seed = seed;
    if (p == "C01" || p == "C02") w.stream(false, {"SPACE"}, w.g.chance(0.3), p == "C01" && w.g.chance(0.2));
    else if (p == "C03") w.stream(false, {"SPACE"}, true, w.g.chance(0.1));
    else if (p == "C04") w.stream(true, {"SPACE"}, true, w.g.chance(0.2));
    else if (p == "C05") { w.off = w.g.chance(0.6) ? 0.0625 : 0; w.stream(false, {"LEFT_TIME", "RIGHT_TIME"}, true, false); }
    else if (p == "C06") w.ingest();
    else if (p == "C07") w.mix(w.g.range(1, 2), w.g.range(1, 2), w.g.chance(0.3), true);
    else if (p == "C08") w.mix(2, 3, w.g.chance(0.3), w.g.chance(0.5));
    else if (p == "C09") w.threads();
    else if (p == "C10") w.lifecycle(false);
    else if (p == "C11") w.lifecycle(true);
    else if (p == "C12") w.parsing(false);
    else if (p == "C13") w.parsing(true);
    else if (p == "C14") w.storage();
    else if (p == "C15") w.params();
    else if (p == "C16") w.tracetests();
    else if (p == "C17") w.progress();
    if (w.g.chance(0.08)) { // parameters by other names
        static const vector<string> pool{"p1", "p10", "e1", "inf", "nan", "NaN", "Infinity", "T2", "ev1", "P_", "trueish", "untilx", "T_0", "x_", "absx", "param1", "INF"};
        map<string, string> to; std::set<string> used; for (const char *k : {"p", "q", "T", "s"}) { string n; do n = w.g.pick(pool); while (!used.insert(n).second); to[k] = n; }
        for (auto &o : w.r.ops) {
            if (o.a[0] == "setp" && to.count(o.a[2])) o.a[2] = to[o.a[2]];
            if (o.a[0] == "parse") o.a[3] = renamed(o.a[3], to);
        }
    }
    w.r.simtime = std::max(0., w.r.simtime - w.began);
    return w.r;
}
} // namespace workload
