// Executes one plan against the real library and judges it with the reference models.
// An operation that makes no sense in the current state is a no-op, so every sub-sequence of a plan is a plan.
#pragma once
#include "faults.hpp"
#include "plan.hpp"
#include "spec.hpp"
#include "prng.hpp"
#include "stl_driver.h"
#include "stl_monitor.h"
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <memory>
#include <functional>
#include <sstream>
#include <set>

namespace world {
using namespace ref;
using plan::Op; using faults::Lib;
using STLRom::STLDriver; using STLRom::STLMonitor; using STLRom::Signal;
typedef vector<vector<double>> Rows;

struct Viol { string cls, msg; };
struct Queued { string id, env; double simtime = 0; bool visu = false; vector<spec::TestDef> tests; };
// what a driver holds, according to the operations it has accepted
struct DModel {
    vector<string> sigs; Params pars; map<string, F> forms; map<string, spec::TestDef> tests; std::deque<Queued> queue;
    int total = 0, pos = 0; string report, log; Rows rows; Sem sem = SPACE; Interp ip = LINEAR;
};
struct MModel { bool has = false; F f; vector<string> sigs; Params pars; Rows rows; Sem sem = SPACE; Interp ip = LINEAR; double st = 0, en = 0; bool known = true; };
struct DObj { std::unique_ptr<STLDriver> p; DModel m; bool hollow = false; long gen = 0, epoch = 0; };
struct MObj { std::unique_ptr<STLMonitor> p; MModel m; bool hollow = false; long gen = 0, epoch = 0; };

inline string hex(double v) { char b[48]; snprintf(b, sizeof b, "%a", v); return b; }
inline string g17(double v) { char b[48]; snprintf(b, sizeof b, "%.12g", v); return b; }
inline string join(const vector<double> &v, string (*f)(double) = g17) { string s; for (double x : v) s += (s.empty() ? "" : " ") + f(x); return s; }

// ------------------------------------------------------------------ printing formulas of the model
inline string numtext(double v) { char b[400]; snprintf(b, sizeof b, "%.10f", v); double w = strtod(b, nullptr); if (w != v) snprintf(b, sizeof b, "%.60f", v); string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s += '0'; return s; }
struct Printer {
    const vector<string> &sigs; const Params *subst; // subst: literals in place of parameter names
    string par(const string &n) const { if (subst) { auto i = subst->find(n); return numtext(i == subst->end() ? 0 : i->second); } return n; }
    string e(const E &x) const {
        switch (x->k) {
        case Expr::SIG: return (x->sig <= (int)sigs.size() ? sigs[x->sig - 1] : string("?")) + "[t]";
        case Expr::CONST: return numtext(x->c);
        case Expr::PARAM: return par(x->name);
        case Expr::ADD: return "(" + e(x->l) + " + " + e(x->r) + ")";
        case Expr::SUB: return "(" + e(x->l) + " - " + e(x->r) + ")";
        case Expr::MUL: return "(" + e(x->l) + " * " + e(x->r) + ")";
        case Expr::ABS: return "(abs(" + e(x->l) + "))";
        }
        return "";
    }
    string b(const Bound &x) const { return x.par ? par(x.name) : numtext(x.v); }
    string f(const F &x) const {
        switch (x->k) {
        case Form::ATOM: return "(" + e(x->le) + (x->gt ? " > " : " < ") + e(x->re) + ")";
        case Form::NOT: return "(not " + f(x->l) + ")";
        case Form::AND: return "(" + f(x->l) + " and " + f(x->r) + ")";
        case Form::OR: return "(" + f(x->l) + " or " + f(x->r) + ")";
        case Form::IMP: return "(" + f(x->l) + " => " + f(x->r) + ")";
        case Form::EV: return "(ev_[" + b(x->a) + ", " + b(x->b) + "] " + f(x->l) + ")";
        case Form::ALW: return "(alw_[" + b(x->a) + ", " + b(x->b) + "] " + f(x->l) + ")";
        case Form::UNTIL: return "(" + f(x->l) + " until_[" + b(x->a) + ", " + b(x->b) + "] " + f(x->r) + ")";
        }
        return "";
    }
};
inline bool dyadic(double v) { return v * 64 == std::floor(v * 64) && std::fabs(v) < 1e6; }
inline bool hasmul(const E &e) { return e && (e->k == Expr::MUL || hasmul(e->l) || hasmul(e->r)); }
inline bool hasmul(const F &f) { return f && (hasmul(f->le) || hasmul(f->re) || hasmul(f->l) || hasmul(f->r)); }
inline bool hasref(const F &f) { return f != nullptr; }
inline bool haspar(const E &e) { return e && (e->k == Expr::PARAM || haspar(e->l) || haspar(e->r)); }
inline bool haspar(const F &f) { return f && (f->a.par || f->b.par || haspar(f->le) || haspar(f->re) || haspar(f->l) || haspar(f->r)); }
// windows with the lower end after the upper end, or before now, have no meaning
inline bool sane(const F &f, const Env &env) {
    if (!f) return true;
    if (f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL) { double a = env.bnd(f->a), b = env.bnd(f->b); if (!(a >= 0 && b >= a && b < 1e4)) return false; }
    return sane(f->l, env) && sane(f->r, env);
}
inline bool dyadicBounds(const F &f, const Env &env) {
    if (!f) return true;
    if (f->k == Form::EV || f->k == Form::ALW || f->k == Form::UNTIL) if (!dyadic(env.bnd(f->a)) || !dyadic(env.bnd(f->b))) return false;
    return dyadicBounds(f->l, env) && dyadicBounds(f->r, env);
}
inline bool close(double a, double b, double tol = 1e-7) { return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }
inline const char *semname(Sem s) { return s == SPACE ? "SPACE" : s == LEFT_TIME ? "LEFT_TIME" : "RIGHT_TIME"; }
inline const char *ipname(Interp i) { return i == LINEAR ? "LINEAR" : "PREVIOUS"; }

// ------------------------------------------------------------------ captured output of the library
struct Cap : std::streambuf {
    char buf[1 << 14]; size_t n = 0;
    int overflow(int c) override { if (c != EOF) { if (n < sizeof buf) buf[n++] = (char)c; } return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize k) override { size_t m = std::min((size_t)k, sizeof buf - n); memcpy(buf + n, s, m); n += m; return k; }
    void clear() { n = 0; }
    string str() const { return string(buf, n); }
};
extern Cap out, err;

inline string slurp(const string &f, bool *ok = nullptr) { // raw system calls: not subject to injected faults
    string r; int fd = (int)syscall(SYS_openat, AT_FDCWD, f.c_str(), O_RDONLY); if (ok) *ok = fd >= 0; if (fd < 0) return r;
    char b[4096]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, n); syscall(SYS_close, fd); return r;
}
inline void spit(const string &f, const string &s) { int fd = (int)syscall(SYS_openat, AT_FDCWD, f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t p = 0; while (fd >= 0 && p < s.size()) { long n = syscall(SYS_write, fd, s.data() + p, s.size() - p); if (n <= 0) break; p += n; } if (fd >= 0) syscall(SYS_close, fd); }

static const uint64_t STEP = 50000000; // instrumented edges one library call may take
struct World {
    const plan::Run &run; bool serial; string tmp;
    map<string, DObj> ds; map<string, MObj> ms; map<string, int> files;
    vector<string> log; vector<Viol> viol; std::set<string> probes;
    map<string, long> fired; long oracles = 0, ops = 0; long genc = 0; bool leaky = false; double simtime = 0;
    vector<faults::Switch> trace; bool traced = false; vector<faults::Switch> recorded; uint64_t switches = 0;
    struct Last { double lo, up; bool fin = false; double v = 0; double end = 0; };
    map<string, Last> last;
    vector<string> *tlog = nullptr; bool inthread = false;
    size_t opi = 0;

    World(const plan::Run &r, bool ser) : run(r), serial(ser) {}
    bool on(const char *p) const { return !inthread && run.prop == p; }
    void bad(const char *p, const string &cls, const string &m) { if (run.prop == p) viol.push_back({cls, "op " + std::to_string(opi) + ": " + m}); }
    bool check(const char *p, bool c, const string &cls, const std::function<string()> &m) { ++oracles; if (!c) bad(p, cls, m()); return c; }
    static thread_local vector<string> *curlog;
    void rec(const string &s) { (curlog ? *curlog : log).push_back(s); }

    // run library code; returns "" or what was thrown
    static string guard(const std::function<void()> &f, long fail = 0) {
        string ex; faults::arm(STEP); uint64_t before = faults::edges_executed();
        auto body = [&]() -> const char * {
            try { Lib l; if (fail) faults::alloc_fail_at(fail); f(); return nullptr; }
            catch (std::bad_alloc &) { return "bad_alloc"; }
            catch (std::invalid_argument &) { return "invalid_argument"; }
            catch (std::out_of_range &) { return "out_of_range"; }
            catch (std::runtime_error &) { return "runtime_error"; }
            catch (std::exception &) { return "exception"; }
            catch (...) { return "unknown"; }
        };
        const char *c = body();
        if (fail) faults::disarm();
        if (c) ex = c;
        if (counting()) { steps() += (double)(faults::edges_executed() - before); counting() = false; }
        faults::arm(0);
        return ex;
    }
    // steps of the first library call of an operation
    static bool &counting() { static bool b = false; return b; }
    static double &steps() { static double x = 0; return x; }
    // ---------------------------------------------------------- texts of states
    static string rowtext(const Rows &r) { string s; for (auto &x : r) s += join(x, hex) + ";"; return s; }
    static string ftext(const STLRom::transducer *f) { if (!f) return "-"; std::ostringstream o; { Lib l; o << *f; } return o.str(); }
    static string dtext(const STLDriver &d, bool bookkeeping = true) {
        string s = "sem=" + std::to_string((int)d.semantics) + " ip=" + std::to_string((int)d.interpol) + "\nsignals";
        for (auto &x : d.signal_map) s += " " + x.first + "=" + std::to_string(x.second);
        s += "\nparams"; for (auto &x : d.param_map) s += " " + x.first + "=" + hex(x.second);
        s += "\n"; for (auto &x : d.formula_map) s += "formula " + x.first + ": " + ftext(x.second) + "\n";
        for (auto &x : d.stl_test_map) s += "test " + x.first + ": " + ftext(x.second.formula) + " + " + x.second.report_positive + " - " + x.second.report_negative + (x.second.is_error ? " E" : "") + "\n";
        for (auto &q : d.trace_test_queue) { s += "queued " + q.id + " " + q.env + " " + hex(q.sim_time) + (q.visu ? " shown {" : " {"); for (auto &t : q.tests) { s += " " + t.test_id + "(" ; for (auto &l : t.param_map) s += l.first + "=" + hex(l.second) + ","; s += "): " + ftext(t.formula) + " + " + t.report_positive + " - " + t.report_negative + (t.is_error ? " E;" : ";"); } s += "}\n"; }
        if (bookkeeping) s += "total=" + std::to_string(d.nb_test_total) + " pos=" + std::to_string(d.nb_test_pos) + "\nreport=" + d.report + "\nlog=" + d.test_log + "\n";
        return s + "data " + rowtext(d.data) + "\n";
    }
    static string sigtext(const Signal &z) { string s = hex(z.beginTime) + ".." + hex(z.endTime); for (auto &x : z) s += " (" + hex(x.time) + "," + hex(x.value) + "," + hex(x.derivative) + ")"; return s; }
    static string mtext(const STLMonitor &m, bool results = true) {
        string s = "sem=" + std::to_string((int)m.semantics) + " ip=" + std::to_string((int)m.interpol) + "\nsignals";
        for (auto &x : m.signal_map) s += " " + x.first + "=" + std::to_string(x.second);
        s += "\nparams"; for (auto &x : m.param_map) s += " " + x.first + "=" + hex(x.second);
        s += "\nformula " + ftext(m.formula) + "\n";
        s += "window " + hex(m.start_time) + " " + hex(m.end_time) + "\n";
        if (results) s += "rob " + hex(m.rob) + " " + hex(m.lower_rob) + " " + hex(m.upper_rob) + "\n";
        return s + "data " + rowtext(m.data) + "\n";
    }
    // ---------------------------------------------------------- shadows: fresh objects built from the model
    static string decls(const vector<string> &sigs, const Params &pars) {
        string t; for (size_t i = 0; i < sigs.size(); ++i) t += (i ? ", " : "signal ") + sigs[i]; if (!t.empty()) t += "\n";
        for (auto &p : pars) t += "param " + p.first + " = " + numtext(p.second) + "\n";
        return t;
    }
    static std::unique_ptr<STLDriver> shadow(const DModel &m) {
        auto d = std::unique_ptr<STLDriver>(new STLDriver());
        string t = decls(m.sigs, m.pars); Printer pr{m.sigs, nullptr};
        for (auto &f : m.forms) t += f.first + " := " + pr.f(f.second) + "\n";
        if (!m.tests.empty()) {
            t += "test zz__ : \"\" {\n";
            for (auto &q : m.tests) t += "  " + q.first + " { " + pr.f(q.second.f) + ", \"" + q.second.pos + "\", \"" + q.second.neg + "\", " + (q.second.err ? "true" : "false") + " }\n";
            t += "}\n";
        }
        faults::arm(STEP);
        if (!t.empty()) { Lib l; if (!d->parse_string(t)) faults::die("refused-canonical-text", "the canonical text of a driver was refused:\n" + t); }
        d->trace_test_queue.clear();
        { Lib l; for (auto &q : m.queue) { d->add_trace_test(q.id, q.env, q.simtime, q.visu); for (auto &x : q.tests) d->add_stl_test(x.id, x.local); } }
        d->data = m.rows; d->set_semantics(semname(m.sem)); d->set_interpol(ipname(m.ip));
        d->nb_test_total = m.total; d->nb_test_pos = m.pos; d->report = m.report; d->test_log = m.log;
        return d;
    }
    struct Res { string ex; vector<double> v; string sig; bool operator==(const Res &o) const { if (ex != o.ex || v.size() != o.v.size() || sig != o.sig) return false; for (size_t i = 0; i < v.size(); ++i) if (memcmp(&v[i], &o.v[i], 8) && !(v[i] == 0 && o.v[i] == 0)) return false; return true; } string str() const { return ex.empty() ? "[" + join(v) + "]" + sig : "throws " + ex; } };
    // another driver of the process is evaluated with other settings, parameters and data: it must not matter to anyone
    std::unique_ptr<STLDriver> bystander;
    void disturb(unsigned k) {
        if (inthread) return;
        Lib l; faults::arm(STEP);
        if (!bystander) {
            bystander.reset(new STLDriver());
            if (!bystander->parse_string("signal z, x, y, w\nparam p = 0.75, s = 0.25, T = 3\nphi := (((ev_[s, T] (x[t] > p)) and (alw_[0, 1] (abs(y[t]) < 2.5))) or ((z[t] > 1) until_[0.5, 1.5] ((x[t] + y[t]) < 3)))\nchi := (not ((w[t] * p > x[t]) => (ev_[0, s] (z[t] < p))))\n"))
                faults::die("refused-canonical-text", "the text of the bystander was refused");
            for (int i = 0; i < 8; ++i) bystander->add_sample({i * 0.5 - 1, 3.5 - i, i * 1.5 - 6, (i & 1) ? -3. : 3., 7.});
        }
        bystander->set_semantics(semname(k % 3 == 0 ? SPACE : k % 3 == 1 ? LEFT_TIME : RIGHT_TIME)); bystander->set_interpol(ipname(k / 3 & 1 ? LINEAR : PREVIOUS));
        bystander->get_online_rob(k & 8 ? "phi" : "chi", (k >> 4 & 3) * 0.25);
    }
    // fresh evaluation of one formula
    Res fresh(const vector<string> &sigs, const Params &pars, const F &f, const Rows &rows, Sem sem, Interp ip, double t0, double t1, bool mon, const Params *subst = nullptr, bool sig = false) {
        Res r; STLDriver d; Printer pr{sigs, subst};
        string t = decls(sigs, subst ? Params() : pars) + "phi__ := " + pr.f(f) + "\n";
        faults::arm(STEP);
        { Lib l; if (!d.parse_string(t)) faults::die("refused-canonical-text", "a formula of the model was refused: " + t); }
        d.data = rows; d.set_semantics(semname(sem)); d.set_interpol(ipname(ip));
        { unsigned k = (unsigned)(oracles * 7 + opi * 3); if (k % 3 == (unsigned)sem) ++k; if ((k / 3 & 1) == (ip == LINEAR)) k += 3; disturb(k); }
        if (!mon) { r.ex = guard([&] { vector<double> x = d.get_online_rob("phi__", t0); r.v = x; }); return r; }
        STLMonitor m; { Lib l; m = d.get_monitor("phi__"); }
        r.ex = guard([&] { m.eval_rob(t0, t1); });
        if (r.ex.empty()) { r.v = {m.get_rob(), m.get_lower_rob(), m.get_upper_rob()}; if (sig) { Lib l; r.sig = sigtext(m.get_signal()); } }
        return r;
    }
    Env env(const Rows &rows, const Params &pars, Interp ip, Sem sem) const { return Env{&rows, &pars, ip, sem}; }

    // ---------------------------------------------------------- oracles on one evaluation
    void judge(const string &who, long gen, long epoch, const vector<string> &sigs, const Params &pars, const F &f, const Rows &rows, Sem sem, Interp ip,
               double t0, double t1, bool mon, const Res &r, const Op &o, const Signal *z) {
        if (inthread) return;
        Env e = env(rows, pars, ip, sem);
        Printer pr{sigs, nullptr};
        auto desc = [&] { return who + " " + (f ? pr.f(f) : string("-")) + " at [" + g17(t0) + "," + g17(t1) + "] " + semname(sem) + "/" + ipname(ip) + " on " + std::to_string(rows.size()) + " samples gave " + r.str(); };
        if (!f) return;
        if (on("C07") || on("C06") || on("C08") || on("C10") || on("C11") || on("C13") || on("C12")) {
            Res s = fresh(sigs, pars, f, rows, sem, ip, t0, t1, mon, nullptr, !r.sig.empty());
            const char *p = run.prop.c_str();
            check(p, r == s, "differs-from-fresh", [&] { return desc() + " but a fresh object gives " + s.str(); });
        }
        if (on("C15")) {
            Res s = fresh(sigs, pars, f, rows, sem, ip, t0, t1, mon, &pars, !r.sig.empty());
            check("C15", r == s, "differs-from-literals", [&] { return desc() + " but with literals for parameters " + s.str(); });
        }
        if (!r.ex.empty() || r.v.size() != 3 || rows.empty() || !sane(f, e)) return;
        bool exact = ip == LINEAR || (dyadicBounds(f, e) && dyadic(t0) && dyadic(t1) && allDyadic(rows));
        if (!exact) return;
        double hor = horizon(f, e), end = t1 + hor;
        bool complete = rows.back()[0] >= end + (dyadicBounds(f, e) && dyadic(t0) && dyadic(t1) ? 0 : 1e-9); // sums of decimals are rounded in some order
        if (sem == SPACE) {
            if (on("C02")) {
                check("C02", r.v[1] <= r.v[0] + 1e-7 * (1 + std::fabs(r.v[0])) && r.v[0] <= r.v[2] + 1e-7 * (1 + std::fabs(r.v[0])), "not-bracketed", [&] { return desc(); });
            }
            if (on("C02") || on("C03")) {
                string key = who + "|" + std::to_string(gen) + "|" + std::to_string(epoch) + "|" + pr.f(f) + "|" + g17(t0) + "|" + g17(t1);
                auto it = last.find(key);
                if (it != last.end()) {
                    if (on("C02")) {
                        check("C02", r.v[1] >= it->second.lo - 1e-7 * (1 + std::fabs(it->second.lo)), "lower-decreased", [&] { return desc() + " earlier lower bound " + g17(it->second.lo); });
                        check("C02", r.v[2] <= it->second.up + 1e-7 * (1 + std::fabs(it->second.up)), "upper-increased", [&] { return desc() + " earlier upper bound " + g17(it->second.up); });
                    }
                    if (on("C03") && it->second.fin) for (int i = 0; i < 3; ++i) check("C03", close(r.v[i], it->second.v), "changed-after-final", [&] { return desc() + " but was final with " + g17(it->second.v); });
                }
                Last l{r.v[1], r.v[2], complete, r.v[0], end};
                if (it != last.end() && it->second.fin) l.v = it->second.v;
                last[key] = l;
            }
            if (on("C03") && complete) { check("C03", close(r.v[0], r.v[1]) && close(r.v[0], r.v[2]), "not-final", [&] { return desc() + " with data up to " + g17(rows.back()[0]) + " and horizon end " + g17(end); }); probes.insert("complete"); }
            if (on("C03") && !complete) probes.insert("partial");
            if (on("C01") && t0 == t1) {
                Prng g((uint64_t)o.lng("cs", 1));
                int n = complete ? 1 : 5; probes.insert(complete ? "complete" : "partial");
                for (int k = 0; k < n; ++k) {
                    Rows x = rows; complete_rows(x, g, end, sigs.size(), k);
                    double v = env(x, pars, ip, SPACE).rob(f, t0);
                    double tol = 1e-7 * (1 + std::fabs(v));
                    check("C01", r.v[1] <= v + tol && v <= r.v[2] + tol, r.v[1] > v + tol ? "lower-too-high" : "upper-too-low", [&] { Rows y(x.begin() + rows.size(), x.end()); string s; for (auto &q : y) s += " (" + join(q) + ")"; return desc() + " but the continuation" + s + " gives " + g17(v); });
                }
            }
            if (on("C04") && complete) {
                probes.insert("complete");
                if (t0 == t1) { double v = e.rob(f, t0); check("C04", close(r.v[0], v), "value", [&] { return desc() + " reference " + g17(v); }); }
                else windowed(e, f, t0, t1, r, z, desc);
            }
        } else if (on("C05") && complete && t0 == t1) {
            bool zero = false; atoms(f, e, t0, end, zero);
            if (zero) return; // an atom exactly at its threshold on a sample: truth at an instant is not observable
            probes.insert("complete");
            double v = e.rob(f, t0);
            check("C05", close(r.v[0], v), "value", [&] { return desc() + " reference " + g17(v); });
        }
    }
    void windowed(const Env &e, const F &f, double t0, double t1, const Res &r, const Signal *z, const std::function<string()> &desc) {
        PL p = e.form(f, t0, t1);
        check("C04", close(r.v[0], p.at(t0)), "window-begin", [&] { return desc() + " reference " + g17(p.at(t0)); });
        if (!z || z->empty()) return;
        probes.insert("window");
        // compare between breakpoints of either function, where both are continuous
        vector<double> c{t0, t1}; for (auto &s : p.s) if (s.t > t0 && s.t < t1) c.push_back(s.t); for (auto &s : *z) if (s.time > t0 && s.time < t1) c.push_back(s.time);
        norm(c);
        for (size_t i = 0; i + 1 < c.size(); ++i) {
            if (c[i + 1] - c[i] < 1e-6) continue;
            for (double w : {0.25, 0.75}) {
                double t = c[i] + w * (c[i + 1] - c[i]); const STLRom::Sample *s = &z->front(); for (auto &q : *z) if (q.time <= t) s = &q;
                double v = s->value + s->derivative * (t - s->time);
                if (!check("C04", close(v, p.at(t), 1e-6), "window-value", [&] { return desc() + " at time " + g17(t) + " signal " + g17(v) + " reference " + g17(p.at(t)); })) return;
            }
        }
    }
    static bool allDyadic(const Rows &r) { for (auto &x : r) if (!dyadic(x[0])) return false; return true; }
    static bool signals(const E &x) { return x && (x->k == Expr::SIG || signals(x->l) || signals(x->r)); }
    static void atoms(const F &f, const Env &e, double s, double t, bool &zero) {
        if (!f) return;
        if (f->k == Form::ATOM) { Env x = e; x.sem = SPACE; PL p = x.form(f, std::min(s, (*e.data)[0][0]), std::max(t, e.data->back()[0])); for (size_t i = 0; i < p.s.size(); ++i) { // crossing the threshold on a sample is fine, touching it is not
                auto &g = p.s[i]; double l = i ? p.left(g.t) : g.v; bool z = std::fabs(g.v) < 1e-9, zl = i && std::fabs(l) < 1e-9;
                if ((z && g.v != 0) || (zl && l != 0) || (zl && !z)) zero = true;
                if (zl && z) { double dl = p.s[i - 1].d; if (dl < 0 ? g.d > 0 : dl > 0 && g.d <= 0) zero = true; }
                if (!i && z && g.v != 0) zero = true;
                // operands that agree all along a piece: with operators in them, rounding between the samples decides
                double n = i + 1 < p.s.size() ? p.s[i + 1].t : p.e;
                if (z && std::fabs(g.v + g.d * (n - g.t)) < 1e-9 && (f->le->l || f->re->l) && (signals(f->le) || signals(f->re))) zero = true; }
            if (std::fabs(p.ve) < 1e-9) zero = true;
            // crossings so close to the window edges or to each other that rounding decides
        }
        atoms(f->l, e, s, t, zero); atoms(f->r, e, s, t, zero);
    }
    static void complete_rows(Rows &x, Prng &g, double end, size_t nsig, int kind) {
        static const double ext[] = {-40, -8, -3, -1, -0.5, 0, 0.5, 1, 3, 8, 40};
        double sc = 1; for (auto &r : x) for (size_t i = 1; i < r.size(); ++i) sc = std::max(sc, std::fabs(r[i]) / 40);
        double t = x.back()[0]; double step = kind == 0 ? 0.015625 : g.pick(vector<double>{0.03125, 0.125, 0.5, 1, 2});
        int n = 0;
        do {
            t += n == 0 && g.chance(0.5) ? 0.015625 : step; vector<double> r{t};
            for (size_t i = 0; i < nsig; ++i) r.push_back(kind == 1 ? sc * (g.chance(0.5) ? 40. : -40.) : kind == 2 ? x.back()[i + 1] + g.range(-1, 1) : sc * ext[g.below(11)]);
            x.push_back(r); if (kind == 0) step = std::min(step * 2, 2.0);
        } while ((t < end || n < 1) && ++n < 60);
        if (t < end) { auto r = x.back(); r[0] = end; for (size_t i = 1; i < r.size(); ++i) r[i] = sc * ext[g.below(11)]; x.push_back(r); }
    }

    // ---------------------------------------------------------- operations
    DObj *D(const string &n) { auto i = ds.find(n); return i == ds.end() ? nullptr : &i->second; }
    MObj *M(const string &n) { auto i = ms.find(n); return i == ms.end() ? nullptr : &i->second; }
    void put(const string &n, std::unique_ptr<STLDriver> p, const DModel &m, bool hollow = false) { DObj &o = ds[n]; { Lib l; o.p = std::move(p); } o.m = m; o.hollow = hollow; o.gen = ++genc; o.epoch = 0; }
    void put(const string &n, std::unique_ptr<STLMonitor> p, const MModel &m, bool hollow = false) { MObj &o = ms[n]; { Lib l; o.p = std::move(p); } o.m = m; o.hollow = hollow; o.gen = ++genc; o.epoch = 0; }
    void count(const string &k, long n = 1) { if (!inthread && n) fired[k] += n; }
    void disk(const Op &o) {
        if (!o.has("short") && !o.has("eintr") && !o.has("rlimit") && !o.has("wlimit") && !o.has("open") && !o.has("close") ) return;
        faults::Disk d; d.short_io = o.lng("short"); d.eintr_every = o.lng("eintr"); d.read_limit = o.has("rlimit") ? o.lng("rlimit") : -1; d.read_errno = (int)o.lng("err", 5);
        d.write_limit = o.has("wlimit") ? o.lng("wlimit") : -1; d.write_errno = (int)o.lng("err", 28); d.silent_loss = o.lng("lost") != 0; d.open_errno = o.lng("open"); d.close_errno = (int)o.lng("close");
        faults::disk_set(d);
    }
    faults::DiskFired diskdone() {
        faults::DiskFired f = faults::disk_fired(); faults::disk_clear();
        count("disk_open_error", f.open); count("disk_write_error", f.werr); count("disk_lost_write", f.lost); count("disk_short_transfer", f.shorts); count("disk_eintr", f.eintr); count("disk_read_error", f.rerr); count("disk_close_error", f.close);
        return f;
    }

    void apply(DModel &m, const spec::Def &d) {
        switch (d.k) {
        case spec::Def::SIGNAL: m.sigs.push_back(d.name); break;
        case spec::Def::PARAM: m.pars[d.name] = d.val; break;
        case spec::Def::FORMULA: m.forms[d.name] = d.f; break;
        case spec::Def::TRACETEST: m.queue.push_back(Queued{d.name, d.t.pos, d.val, d.t.err, {}}); break;
        case spec::Def::TEST: {
            ++m.total; spec::TestDef t = d.t;
            if (t.inl) m.tests[t.id] = t; else { auto i = m.tests.find(t.id); if (i == m.tests.end()) break; auto loc = t.local; t = i->second; t.local = loc; }
            if (!m.queue.empty()) m.queue.back().tests.push_back(t);
            break; }
        }
    }
    // what the definitions mean: robustness of formulas and tests of a copy of the driver on made-up data
    string meaning(const STLDriver &d, const DModel &m) {
        string s; Prng g(run.seed * 31 + opi); Rows x; double t = 0; Env e{&x, &m.pars, LINEAR, SPACE};
        for (int i = 0; i < 24; ++i) { vector<double> r{t}; for (size_t k = 0; k < m.sigs.size(); ++k) r.push_back(g.range(-16, 16) * 0.25); x.push_back(r); t += g.pick(vector<double>{0.125, 0.25, 0.5}); }
        string ex = guard([&] {
            STLDriver c(d); c.data = x; c.set_semantics("SPACE"); c.set_interpol("LINEAR"); c.report.clear(); c.test_log.clear(); int n = 0;
            vector<string> ns; for (auto &f : m.forms) if (sane(f.second, e)) ns.push_back(f.first);
            while (!ns.empty() && n++ < 6) { size_t k = g.below(ns.size()); s += ns[k] + ":"; for (double v : c.get_online_rob(ns[k], n & 1 ? 0 : 0.5)) s += " " + hex(v); s += "\n"; ns.erase(ns.begin() + k); }
            for (auto &q : m.queue) { bool ok = true; for (auto &t : q.tests) ok = ok && sane(t.f, e); if (!ok || n++ > 12) break; c.run_next_trace_test(); }
            s += c.report + c.test_log; });
        return s + ex;
    }
    // and what the reference semantics gives for some of the formulas
    void meant(const STLDriver &d, const DModel &m, const string &text) {
        Prng g(run.seed * 37 + opi); vector<string> ns; for (auto &f : m.forms) ns.push_back(f.first);
        for (int k = 0; k < 3 && !ns.empty(); ++k) {
            size_t q = g.below(ns.size()); string n = ns[q]; ns.erase(ns.begin() + q); const F &f = m.forms.at(n);
            Rows x; Env e{&x, &m.pars, LINEAR, SPACE}; double hor = horizon(f, e); if (!(hor < 100)) continue;
            double step = std::ceil(hor / 20 / 0.25) * 0.25 + 0.25, t = 0; for (int i = 0; i < 24; ++i) { vector<double> r{t}; for (size_t j = 0; j < m.sigs.size(); ++j) r.push_back(g.range(-16, 16) * 0.25); x.push_back(r); t += step; }
            if (!sane(f, e)) continue;
            vector<double> got; string ex = guard([&] { STLDriver c(d); c.data = x; c.set_semantics("SPACE"); c.set_interpol("LINEAR"); vector<double> v = c.get_online_rob(n, 0); got = v; });
            double v = e.rob(f, 0); if (!(std::fabs(v) < 9000)) continue; probes.insert("meant");
            check(run.prop.c_str(), ex.empty() && got.size() == 3 && close(got[0], v) && close(got[1], v) && close(got[2], v), "wrong-value", [&] { Printer pr{m.sigs, nullptr}; return n + ", which is " + pr.f(f) + ", gives " + (ex.empty() ? join(got) : ex) + " on made-up data instead of " + g17(v) + "; text: " + text; });
        }
    }
    static spec::Names names(const DModel &m) { spec::Names n; n.sigs = m.sigs; for (auto &p : m.pars) n.pars.insert(p.first); n.forms = m.forms; for (auto &t : m.tests) n.tests.insert(t.first); return n; }
    string modeltext(const DModel &m) { auto s = shadow(m); return dtext(*s); }

    void op_parse(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string mode = o.str(2), text = o.str(3); bool ok = false; string ex; bool ioerr = false, oom = false;
        long fail = o.lng("fail");
        err.clear();
        if (mode == "string") ex = guard([&] { ok = d->p->parse_string(text); }, fail);
        else if (mode == "stream") {
            vector<int> ch; { std::istringstream is(o.get("chunks")); int c; while (is >> c) { ch.push_back(c); is.ignore(1); } }
            long at = o.has("at") ? o.lng("at") : -1; bool thr = o.get("how") == "throw";
            faults::ChunkBuf cb(text, ch, at, thr ? faults::ChunkBuf::THROW : faults::ChunkBuf::EOF_); std::istream is(&cb);
            ex = guard([&] { ok = d->p->parse_stream(is); }, fail);
            if (cb.fired && thr) { ioerr = true; count("stream_error"); }
            if (cb.fired && !thr) { text = text.substr(0, at); count("stream_truncated"); }
            if (!ch.empty()) count("chunked_reads", cb.reads);
        } else {
            string fn = tmp + "/spec" + (inthread ? o.get("th") : "") + ".stl"; spit(fn, text);
            if (o.has("trunc")) { size_t n = (size_t)o.lng("trunc"); if (n < text.size()) { text = text.substr(0, n); spit(fn, text); count("file_torn"); } }
            disk(o); ex = guard([&] { ok = d->p->parse_file(fn); }, fail); auto f = diskdone(); if (f.rerr) ioerr = true;
            if (f.open) { rec(ok ? "parsed" : "refused"); if (on("C13") || on("C12")) { check(run.prop.c_str(), !ok && ex.empty(), "open-error", [&] { return "a file that cannot be opened: " + string(ok ? "accepted" : ex); }); check(run.prop.c_str(), dtext(*d->p) == modeltext(d->m), "state", [&] { return "changed by a file that cannot be opened"; }); } return; }
        }
        if (fail && faults::alloc_fired()) { oom = true; count("alloc_failure"); }
        rec(string("parse ") + (ex.empty() ? (ok ? "true" : "false") : ex));
        auto rd = spec::read(text, names(d->m), o.has("usual"));
        ++d->epoch;
        if (rd.mixed && !o.has("usual")) { d->hollow = true; return; } // made by an inserted character: not judged
        if (inthread) { for (auto &x : rd.defs) apply(d->m, x); return; }
        const char *P = run.prop.c_str();
        bool judged = on("C12") || on("C13") || on("C11") || on("C07") || on("C08") || on("C10") || on("C16") || on("C15");
        if (!judged) {
            if (ok && rd.ok) { for (auto &x : rd.defs) apply(d->m, x); return; }
            // find what was defined by asking the driver
        }
        if (!ioerr && !oom && ex.empty() && judged) {
            check(P, ok == rd.ok, ok ? "accepted-bad-text" : "refused-good-text", [&] { return string("parse returned ") + (ok ? "true" : "false") + " for: " + text + "\n" + err.str(); });
        } else if (judged) {
            if (ioerr) check(P, !ok && ex.empty(), "read-error-unreported", [&] { return string("a read error while parsing gave ") + (ok ? "true" : ex); });
            if (!oom && !ioerr) check(P, ex.empty(), "threw", [&] { return "parsing threw " + ex; });
            if (oom) check(P, !ok || (rd.ok), "oom-unreported", [&] { return "parse succeeded"; });
        }
        if (rd.ok && rd.defs.empty() && ok) return;
        // which prefix of the definitions does the driver hold?
        string have = dtext(*d->p); DModel m = d->m; size_t n = rd.defs.size(); int found = -1; vector<DModel> states{m};
        for (auto &x : rd.defs) { apply(m, x); states.push_back(m); }
        auto sizes = [&](const DModel &x) { const STLDriver &y = *d->p; return y.signal_map.size() == x.sigs.size() && y.param_map.size() == x.pars.size() && y.formula_map.size() == x.forms.size() && y.stl_test_map.size() == x.tests.size() && y.trace_test_queue.size() == x.queue.size() && y.nb_test_total == x.total; };
        for (size_t j = states.size(); j-- > 0;) if (sizes(states[j]) && modeltext(states[j]) == have) { found = (int)j; break; }
        if (found < 0) {
            if (!ok && rd.loose) { d->hollow = true; return; } // the last definition went on into the error
            if (judged) bad(P, "wrong-definitions", "after parsing (" + string(ok ? "true" : "false") + ") the driver holds\n" + have + "which is no prefix of what the text says; all of it gives\n" + modeltext(states.back()));
            d->hollow = true; return;
        }
        d->m = states[found];
        if (judged) for (auto &q : d->m.pars) check(P, d->p->param_map.count(q.first) && d->p->param_map.at(q.first) == q.second, "wrong-parameter-value", [&] { return q.first + " is " + g17(d->p->param_map.at(q.first)) + ", the text says " + g17(q.second); });
        bool exact = !ioerr && !oom && ex.empty();
        size_t least = exact ? (rd.loose && n ? n - 1 : n) : 0; // what an unreadable or unaffordable text contributes depends on buffering
        if (ok) least = n;
        if (judged) check(P, (size_t)found >= least, "lost-definitions", [&] { return "parsing returned " + string(ok ? "true" : "false") + " and kept " + std::to_string(found) + " of " + std::to_string(n) + " definitions of: " + text; });
        if (found > 0) probes.insert(ok ? "parsed" : "kept-some");
        if (found > 0 && (on("C12") || on("C13")) && !d->m.sigs.empty()) {
            auto sh = shadow(d->m); string a = meaning(*d->p, d->m), b = meaning(*sh, d->m);
            check(P, a == b, rd.mixed ? "product-after-sum" : "wrong-meaning", [&] { return "on made-up data the definitions give\n" + a + "instead of\n" + b + "for: " + text; });
            { Lib l; sh.reset(); }
            if (!rd.mixed) meant(*d->p, d->m, text);
        }
    }
    void op_add(const Op &o) {
        DObj *d = D(o.str(1)); MObj *m = M(o.str(1)); if ((!d || d->hollow) && (!m || m->hollow)) return;
        vector<double> s; for (size_t i = 2; i < o.a.size(); ++i) s.push_back(o.num(i));
        Rows &rows = d ? d->m.rows : m->m.rows; size_t ns = d ? d->m.sigs.size() : m->m.sigs.size();
        if (s.empty()) return;
        bool good = s.size() == ns + 1 && s[0] == s[0] && (rows.empty() || s[0] > rows.back()[0]);
        string before = on("C06") ? (d ? dtext(*d->p) : mtext(*m->p)) : "";
        long fail = o.lng("fail");
        string ex = guard([&] { if (d) d->p->add_sample(s); else m->p->add_sample(s); }, fail);
        bool oom = fail && faults::alloc_fired(); if (oom) count("alloc_failure");
        rec("add " + ex);
        if (on("C11") && oom) { // reported, or done correctly
            const trace_data &dat = d ? d->p->data : m->p->data;
            Rows want = rows; if (ex.empty() && good) want.push_back(s);
            check("C11", rowtext(dat) == rowtext(want), "add-broke-data", [&] { return "after a failed allocation in add_sample"; });
            if (ex.empty() && good) rows.push_back(s);
            return;
        }
        if (on("C06")) {
            check("C06", good ? ex.empty() : !ex.empty(), good ? "refused-good-sample" : "accepted-bad-sample", [&] { return "sample (" + join(s) + ") after " + (rows.empty() ? string("nothing") : g17(rows.back()[0])) + " with " + std::to_string(ns) + " signals: " + (ex.empty() ? "accepted" : ex); });
            if (!good) { count("rejected_sample"); if (!ex.empty()) check("C06", (d ? dtext(*d->p) : mtext(*m->p)) == before, "rejected-sample-changed-state", [&] { return "sample (" + join(s) + ")"; }); }
        }
        if (ex.empty() && good) rows.push_back(s);
        const trace_data &dat = d ? d->p->data : m->p->data;
        if (on("C06")) check("C06", rowtext(dat) == rowtext(rows), "stored-trace", [&] { return "data holds " + std::to_string(dat.size()) + " rows, accepted " + std::to_string(rows.size()); });
    }
    void op_query(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string phi = o.str(2); double t0 = o.num(3); long fail = o.lng("fail"); Res r;
        auto doit = [&](long k) { Res x; x.ex = guard([&] { vector<double> v = o.has("deft") ? d->p->get_online_rob(phi) : d->p->get_online_rob(phi, t0); x.v.swap(v); }, k); return x; };
        if (o.has("deft")) t0 = 0;
        r = doit(fail);
        if (fail && faults::alloc_fired()) {
            count("alloc_failure");
            if (r.ex.empty() && on("C11") && d->m.forms.count(phi)) judge(o.str(1), d->gen, d->epoch, d->m.sigs, d->m.pars, d->m.forms[phi], d->m.rows, d->m.sem, d->m.ip, t0, t0, false, r, o, nullptr);
            else if (on("C11")) check("C11", r.ex == "bad_alloc", "oom-exception", [&] { return "query threw " + r.ex; });
            r = doit(0);
        }
        rec("query " + (r.ex.empty() ? join(r.v, hex) : r.ex));
        auto f = d->m.forms.find(phi);
        if (f == d->m.forms.end() || d->m.rows.empty()) { if (on("C07")) check("C07", r.ex.empty() && r.v.empty(), "result-without-data", [&] { return r.str(); }); return; }
        judge(o.str(1), d->gen, d->epoch, d->m.sigs, d->m.pars, f->second, d->m.rows, d->m.sem, d->m.ip, t0, t0, false, r, o, nullptr);
    }
    void op_eval(const Op &o) {
        MObj *m = M(o.str(1)); if (!m || m->hollow) return;
        double t0 = m->m.st, t1 = m->m.en; if (o.a.size() == 3) t0 = t1 = o.num(2); if (o.a.size() > 3) { t0 = o.num(2); t1 = o.num(3); }
        long fail = o.lng("fail"); Res r; Signal z; double ret = 0;
        auto doit = [&](long k) { Res x; x.ex = guard([&] { ret = o.a.size() == 2 ? m->p->eval_rob() : o.a.size() == 3 ? m->p->eval_rob(t0) : m->p->eval_rob(t0, t1); }, k);
            if (x.ex.empty()) { x.v = {m->p->get_rob(), m->p->get_lower_rob(), m->p->get_upper_rob()}; if (t1 > t0) { Lib l; z = m->p->get_signal(); x.sig = sigtext(z); } } return x; };
        r = doit(fail);
        if (fail && faults::alloc_fired()) {
            count("alloc_failure");
            if (r.ex.empty() && on("C11") && m->m.has) judge(o.str(1), m->gen, m->epoch, m->m.sigs, m->m.pars, m->m.f, m->m.rows, m->m.sem, m->m.ip, t0, t1, true, r, o, &z);
            else if (on("C11")) check("C11", r.ex == "bad_alloc", "oom-exception", [&] { return "evaluation threw " + r.ex; });
            r = doit(0);
        }
        rec("eval " + (r.ex.empty() ? join(r.v, hex) + r.sig : r.ex));
        if (r.ex.empty() && (on("C04") || on("C05") || on("C07")) ) check(run.prop.c_str(), ret == m->p->get_rob(), "return-value", [&] { return "eval_rob returned " + g17(ret) + " but get_rob " + g17(m->p->get_rob()); });
        if (!m->m.has) return;
        judge(o.str(1), m->gen, m->epoch, m->m.sigs, m->m.pars, m->m.f, m->m.rows, m->m.sem, m->m.ip, t0, t1, true, r, o, &z);
        { Lib l; Signal().swap(z); }
    }
    void op_setp(const Op &o) {
        DObj *d = D(o.str(1)); MObj *m = M(o.str(1)); if ((!d || d->hollow) && (!m || m->hollow)) return;
        string n = o.str(2); double v = o.num(3);
        string ex = guard([&] { if (d) d->p->set_param(n, v); else m->p->set_param(n, v); });
        rec("setp " + ex);
        Params &p = d ? d->m.pars : m->m.pars; bool known = p.count(n) > 0;
        if (known) { p[n] = v; ++(d ? d->epoch : m->epoch); }
        if (on("C15")) {
            check("C15", known || d ? ex.empty() : !ex.empty(), "set-param-outcome", [&] { return "set_param(" + n + ") " + (known ? "known" : "unknown") + ": " + (ex.empty() ? "no error" : ex); });
            for (auto &q : p) { double w = d ? d->p->get_param(q.first) : m->p->get_param(q.first); check("C15", w == q.second, "get-param", [&] { return "get_param(" + q.first + ") gives " + g17(w) + " not " + g17(q.second); }); }
            if (!known) check("C15", (d ? d->p->param_map : m->p->param_map).size() == p.size(), "unknown-parameter-added", [&] { return n; });
        }
    }
    void op_sem(const Op &o, bool ip) {
        DObj *d = D(o.str(1)); MObj *m = M(o.str(1)); if ((!d || d->hollow) && (!m || m->hollow)) return;
        string s = o.str(2);
        string ex = guard([&] { if (ip) { if (d) d->p->set_interpol(s); else m->p->set_interpol(s); } else { if (d) d->p->set_semantics(s); else m->p->set_semantics(s); } });
        rec("set " + ex); ++(d ? d->epoch : m->epoch);
        if (!ex.empty()) return;
        if (ip) (d ? d->m.ip : m->m.ip) = s == "LINEAR" ? LINEAR : PREVIOUS; else (d ? d->m.sem : m->m.sem) = s == "SPACE" ? SPACE : s == "LEFT_TIME" ? LEFT_TIME : RIGHT_TIME;
        if (on("C05")) { string g = d ? (ip ? d->p->get_interpol() : d->p->get_semantics()) : (ip ? m->p->get_interpol() : m->p->get_semantics()); check("C05", g == s, "setting", [&] { return "set " + s + " but reads back " + g; }); }
    }
    void op_getmon(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string phi = o.str(2), dst = o.str(3); if (dst.empty() || dst[0] != 'm') return;
        long fail = o.lng("fail"); std::unique_ptr<STLMonitor> p;
        string ex = guard([&] { p.reset(new STLMonitor(d->p->get_monitor(phi))); }, fail);
        if (fail && faults::alloc_fired()) {
            count("alloc_failure"); leaky = true;
            if (on("C11")) {
                if (!ex.empty()) check("C11", ex == "bad_alloc", "oom-exception", [&] { return "get_monitor threw " + ex; });
                else if (p && p->formula && d->m.forms.count(phi)) { auto f = fresh(d->m.sigs, d->m.pars, d->m.forms[phi], d->m.rows, d->m.sem, d->m.ip, 0, 0, true); Res r; r.ex = guard([&] { p->eval_rob(0, 0); }); if (r.ex.empty()) r.v = {p->rob, p->lower_rob, p->upper_rob}; check("C11", r == f, "oom-monitor", [&] { return "a monitor made while an allocation failed gives " + r.str() + " not " + f.str(); }); }
            }
            { Lib l; p.reset(); }
            ex = guard([&] { p.reset(new STLMonitor(d->p->get_monitor(phi))); });
        }
        rec("getmon " + ex);
        if (!p) return;
        MModel m; auto f = d->m.forms.find(phi);
        if (f != d->m.forms.end()) { m.has = true; m.f = f->second; m.sigs = d->m.sigs; m.pars = d->m.pars; m.rows = d->m.rows; m.sem = d->m.sem; m.ip = d->m.ip; }
        if (on("C08") || on("C10") || on("C11")) {
            check(run.prop.c_str(), (p->formula != nullptr) == m.has, "monitor-formula", [&] { return "get_monitor(" + phi + ")"; });
            if (m.has) check(run.prop.c_str(), rowtext(p->data) == rowtext(m.rows) && p->param_map == m.pars && (int)p->semantics == (int)m.sem && (p->interpol == STLRom::Interpol::LINEAR) == (m.ip == LINEAR) && ftext(p->formula) == ftext(d->p->formula_map[phi]), "monitor-snapshot", [&] { return "get_monitor(" + phi + ") is not a snapshot of the driver"; });
        }
        put(dst, std::move(p), m);
    }
    // copy / assign / move / massign src dst
    void op_copy(const Op &o, int kind) {
        string a = o.str(1), b = o.str(2); if (a.empty() || b.empty() || a[0] != b[0]) return;
        long fail = kind >= 2 ? 0 : o.lng("fail");
        if (a[0] == 'd') cp<STLDriver>(a, b, kind, fail, ds, [](const STLDriver &x) { return dtext(x); });
        else cp<STLMonitor>(a, b, kind, fail, ms, [](const STLMonitor &x) { return mtext(x); });
    }
    template <class T, class Map, class Txt> void cp(const string &a, const string &b, int kind, long fail, Map &mp, Txt txt) {
        auto ia = mp.find(a); if (ia == mp.end() || ia->second.hollow) return;
        bool exists = mp.count(b) > 0 && mp.find(b)->second.p; string ex; string src = txt(*ia->second.p); auto model = ia->second.m;
        bool oom = false;
        if (kind == 0 || kind == 2) { // construct: b is replaced by the new object
            std::unique_ptr<T> p;
            ex = guard([&] { p.reset(kind == 0 ? new T(*ia->second.p) : new T(std::move(*ia->second.p))); }, fail);
            if (fail && faults::alloc_fired()) { oom = true; count("alloc_failure"); leaky = true; if (on("C11")) check("C11", ex == "bad_alloc" || (p && txt(*p) == src), "oom-copy", [&] { return "copy: " + ex; }); { Lib l; p.reset(); } if (on("C11")) check("C11", txt(*ia->second.p) == src, "oom-source-changed", [&] { return a; }); ex = guard([&] { p.reset(new T(*ia->second.p)); }); }
            if (!p) { rec("copy " + ex); return; }
            if (kind == 2) ia->second.hollow = true;
            if (a == b) { auto old = std::move(ia->second.p); Lib l; old.reset(); }
            put(b, std::move(p), model);
        } else {
            if (!exists) return;
            auto &dst = mp.find(b)->second; auto &s = mp.find(a)->second;
            if (kind == 3 && a == b) { // self move: the object must stay destructible and assignable
                ex = guard([&] { T &x = *s.p; x = std::move(*dst.p); }); rec("selfmove " + ex);
                if (txt(*s.p) != src) s.hollow = true; return;
            }
            ex = guard([&] { if (kind == 1) *dst.p = *s.p; else *dst.p = std::move(*s.p); }, fail);
            if (fail && faults::alloc_fired()) { oom = true; count("alloc_failure"); leaky = true; if (on("C11")) { check("C11", ex == "bad_alloc" || txt(*dst.p) == src, "oom-assign", [&] { return "assignment: " + ex; }); check("C11", txt(*s.p) == src, "oom-source-changed", [&] { return a; });
                    if (a != b) touch(dst, b); }
                ex = guard([&] { *dst.p = *s.p; }); }
            if (kind == 3) s.hollow = true;
            dst.m = model; dst.hollow = false; dst.gen = ++genc; dst.epoch = 0;
        }
        rec("copy " + ex); (void)oom;
        auto &d = mp.find(b)->second;
        if (on("C10") || on("C11") || on("C08")) {
            check(run.prop.c_str(), ex.empty(), "copy-threw", [&] { return ex; });
            check(run.prop.c_str(), txt(*d.p) == src, "copy-differs", [&] { return "the copy holds\n" + txt(*d.p) + "the source held\n" + src; });
            if (kind < 2 && mp.count(a)) check(run.prop.c_str(), txt(*mp.find(a)->second.p) == src, "source-changed", [&] { return a; });
        }
    }
    // after a failed assignment the target must still be usable without crashing, whatever it holds
    void touch(DObj &d, const string &) { guard([&] { for (auto &f : d.p->formula_map) if (f.second) { vector<double> v = d.p->get_online_rob(f.first, 0.); } }); string s = dtext(*d.p); }
    void touch(MObj &m, const string &) { guard([&] { m.p->eval_rob(0.); }); string s = mtext(*m.p); }

    void op_clear(const Op &o) {
        DObj *d = D(o.str(1)); MObj *m = M(o.str(1));
        if (d && !d->hollow) { string ex = guard([&] { d->p->clear(); }); rec("clear " + ex); DModel &x = d->m; x.forms.clear(); x.pars.clear(); x.tests.clear(); x.queue.clear(); x.report.clear(); x.log.clear(); x.total = x.pos = 0; ++d->epoch;
            if (on("C07") || on("C10")) { string a = dtext(*d->p), b = modeltext(d->m); check(run.prop.c_str(), a == b, "clear-left-something", [&] { return "after clear the driver holds\n" + a + "instead of\n" + b; }); } }
        if (m && !m->hollow) { string ex = guard([&] { m->p->reset_signal_data(); }); rec("reset " + ex); m->m.rows.clear(); ++m->epoch; }
    }
    void op_print(const Op &o) {
        DObj *d = D(o.str(1)); MObj *m = M(o.str(1)); out.clear();
        if (d && !d->hollow) { std::ostringstream os; string ex = guard([&] { d->p->print(os); d->p->disp(); d->p->print_trace(os); os << d->p->get_signals_names(); }); rec("print " + os.str() + ex);
            if (on("C12")) { auto s = shadow(d->m); std::ostringstream so; { Lib l; s->print(so); s->print_trace(so); so << s->get_signals_names(); } check("C12", os.str() == so.str(), "printed-differently", [&] { return os.str() + "\n instead of\n" + so.str(); }); } }
        if (m && !m->hollow) { std::ostringstream os; string ex = guard([&] { os << *m->p; m->p->display_formula(); m->p->display_signal_names(); string n = m->p->get_signal_names(); os << n; }); rec("print " + os.str() + ex); }
    }
    // independent reading of a trace file
    static bool readrows(const string &text, Rows &rows, bool &lastpartial) {
        size_t b = 0; lastpartial = false;
        while (b < text.size()) {
            size_t e = text.find('\n', b); bool term = e != string::npos; if (!term) e = text.size();
            string l = text.substr(b, e - b); b = e + 1; vector<double> r; const char *p = l.c_str();
            while (true) { while (*p && isspace((unsigned char)*p)) ++p; if (!*p) break; char *q; double v = strtod(p, &q); if (q == p || (*q && !isspace((unsigned char)*q))) return false; r.push_back(v); p = q; }
            if (r.empty()) continue;
            if (!rows.empty() && r.size() != rows.back().size()) return false;
            rows.push_back(r); if (!term) lastpartial = true;
        }
        return true;
    }
    void op_dumptrace(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string fn = tmp + "/" + o.str(2); out.clear();
        disk(o); string ex = guard([&] { d->p->dump_trace_file(fn); }); auto f = diskdone();
        string said = out.str(); bool ok; string text = slurp(fn, &ok);
        rec("dumptrace " + (inthread ? text : std::to_string(text.size())) + (inthread || said.empty() ? "" : " reported"));
        if (!on("C14")) return;
        bool fault = f.open || f.werr || f.close;
        check("C14", ex.empty(), "threw", [&] { return "dump_trace_file threw " + ex; });
        if (fault) { check("C14", !said.empty(), "write-error-unreported", [&] { return "dump_trace_file said nothing about a write error"; }); probes.insert("reported"); }
        else if (!f.lost) { Rows r; bool lp; bool good = ok && readrows(text, r, lp); check("C14", good && rowtext(r) == rowtext(d->m.rows) && said.empty(), "wrong-file", [&] { return "file " + text + " for " + std::to_string(d->m.rows.size()) + " rows; said: " + said; }); probes.insert("written"); }
        files[o.str(2)] = 1;
    }
    void op_readtrace(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string fn = tmp + "/" + o.str(2); bool exists; string text = slurp(fn, &exists); bool ok = false; long fail = o.lng("fail");
        disk(o); string ex = guard([&] { ok = d->p->read_trace_file(fn); }, fail); auto f = diskdone(); bool oom = fail && faults::alloc_fired(); if (oom) { count("alloc_failure"); }
        rec(string("readtrace ") + (ex.empty() ? (ok ? "true" : "false") : ex));
        Rows rows; bool lp = false; bool good = exists && readrows(text, rows, lp);
        ++d->epoch;
        if (on("C11")) {
            if (oom) { check("C11", !ex.empty() || !ok || rowtext(d->p->data) == rowtext(rows), "oom-readtrace", [&] { return "read_trace_file reported success with wrong rows"; });
                string e2 = guard([&] { ok = d->p->read_trace_file(fn); }); check("C11", e2.empty() && ok == good, "retry", [&] { return "reading again failed"; }); }
            d->m.rows = d->p->data; return;
        }
        if (on("C14")) {
            check("C14", ex.empty(), "threw", [&] { return "read_trace_file threw " + ex; });
            if (!exists || f.open || f.rerr) { check("C14", !ok, "read-error-unreported", [&] { return string("reading ") + (exists ? "with an error" : "a missing file") + " returned true"; }); probes.insert("read-error"); }
            else {
                check("C14", ok == good, ok ? "accepted-bad-file" : "refused-good-file", [&] { return "read_trace_file returned " + string(ok ? "true" : "false") + " for: " + text; });
                if (ok && good) { check("C14", rowtext(d->p->data) == rowtext(rows), "wrong-rows", [&] { return "read " + std::to_string(d->p->data.size()) + " rows from: " + text; }); probes.insert(lp ? "torn-row" : "read"); }
                if (!good) probes.insert("bad-file");
            }
        }
        d->m.rows = d->p->data; // on failure whatever was read stays; later operations go on from there
        for (auto &r : d->m.rows) if (r.size() != d->m.sigs.size() + 1) { d->m.rows.clear(); Lib l; d->p->data.clear(); break; }
        for (size_t i = 1; i < d->m.rows.size(); ++i) if (!(d->m.rows[i][0] > d->m.rows[i - 1][0])) { d->m.rows.clear(); Lib l; d->p->data.clear(); break; }
    }
    void op_dumplog(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        string fn = tmp + "/" + o.str(2); bool ok = false;
        disk(o); string ex = guard([&] { ok = d->p->dump_test_log_file(fn); }); auto f = diskdone(); string text = slurp(fn);
        rec(string("dumplog ") + (ok ? "true" : "false"));
        if (!on("C14") && !on("C16")) return;
        if (f.open || f.werr || f.close) check("C14", !ok, "write-error-unreported", [&] { return "dump_test_log_file returned true"; });
        else if (!f.lost) check(run.prop.c_str(), ok && ex.empty() && text == d->m.log + "\nNumber of positive STL tests: " + std::to_string(d->m.pos) + "/" + std::to_string(d->m.total), "wrong-log-file", [&] { return text; });
    }
    void op_dump(const Op &o) { // writes <formula>.out into the current directory (a scratch directory)
        DObj *d = D(o.str(1)); if (!d || d->hollow || d->m.rows.empty()) return;
        for (auto &f : d->m.forms) unlink((f.first + ".out").c_str());
        out.clear(); disk(o); string ex = guard([&] { d->p->dump(); }); auto f = diskdone(); string said = out.str();
        rec("dump " + ex);
        if (on("C14")) { check("C14", ex.empty(), "threw", [&] { return "dump threw " + ex; }); if (f.open || f.werr || f.close) check("C14", !said.empty(), "write-error-unreported", [&] { return "dump said nothing about a write error"; }); }
        if ((on("C14") || on("C07")) && ex.empty() && !(f.open || f.werr || f.close || f.lost)) {
            // the files a fresh driver with the same contents writes
            map<string, string> got; for (auto &x : d->m.forms) got[x.first] = slurp(x.first + ".out");
            auto s = shadow(d->m); { Lib l; s->dump(); }
            for (auto &x : d->m.forms) { string w = slurp(x.first + ".out"); check(run.prop.c_str(), got[x.first] == w && !w.empty(), "dumped-differently", [&] { return x.first + ".out: " + got[x.first] + " instead of " + w; }); }
        }
    }
    void op_mkfile(const Op &o) { string t = o.str(2); spit(tmp + "/" + o.str(1), t); rec("mkfile"); }
    void op_tear(const Op &o) { string fn = tmp + "/" + o.str(1); bool ok; string t = slurp(fn, &ok); if (!ok) return; size_t n = (size_t)o.num(2); if (o.lng("mod")) n = t.empty() ? 0 : n % (t.size() + 1); if (n < t.size()) { spit(fn, t.substr(0, n)); count("file_torn"); } rec("tear"); }
    void op_runtests(const Op &o) {
        DObj *d = D(o.str(1)); if (!d || d->hollow) return;
        bool ret = false; DModel &m = d->m;
        if (m.rows.empty() && !m.queue.empty() && !m.queue.front().tests.empty()) return; // a run without data is a caller error
        string ex = guard([&] { ret = o.has("next") ? (d->p->run_next_trace_test(), d->p->error_flag) : d->p->run_tests(); });
        rec("runtests " + ex + (ret ? " error" : ""));
        if (inthread) { rec(d->p->report + d->p->test_log + std::to_string(d->p->nb_test_pos) + "/" + std::to_string(d->p->nb_test_total)); if (!m.queue.empty()) m.queue.pop_front(); return; }
        bool expect = false;
        if (!m.queue.empty()) {
            Queued q = m.queue.front(); m.queue.pop_front();
            m.report += "stl_test " + q.id + "\n";
            for (auto &t : q.tests) {
                Res r = fresh(m.sigs, m.pars, t.f, m.rows, m.sem, m.ip, 0, 0, true);
                double v = r.v.empty() ? 0 : r.v[0]; std::ostringstream os; os << v; string vs = os.str();
                m.log += t.id + ": " + vs + "\n"; m.report += "    " + t.id + ": " + vs;
                if (v > 0) { ++m.pos; m.report += "  --> PB\n"; if (!t.pos.empty()) m.report += "    " + t.pos + "\n"; if (t.err) expect = true; }
                else { m.report += "  --> OK\n"; if (!t.neg.empty()) m.report += "    " + t.neg + "\n"; }
                probes.insert(v > 0 ? "positive" : "negative");
            }
            m.report += "\n";
        } else probes.insert("empty-queue");
        if (on("C16")) {
            check("C16", ex.empty(), "threw", [&] { return ex; });
            check("C16", ret == expect, "error-flag", [&] { return string("run_tests returned ") + (ret ? "true" : "false"); });
            check("C16", d->p->report == m.report, "report", [&] { return "report\n" + d->p->report + "\nexpected\n" + m.report; });
            check("C16", d->p->test_log == m.log, "log", [&] { return "log\n" + d->p->test_log + "\nexpected\n" + m.log; });
            check("C16", d->p->nb_test_pos == m.pos && d->p->nb_test_total == m.total, "counts", [&] { return std::to_string(d->p->nb_test_pos) + "/" + std::to_string(d->p->nb_test_total) + " expected " + std::to_string(m.pos) + "/" + std::to_string(m.total); });
            check("C16", d->p->trace_test_queue.size() == m.queue.size() && d->p->trace_test_queue_empty() == m.queue.empty(), "queue", [&] { return std::to_string(d->p->trace_test_queue.size()) + " queued"; });
            string a = dtext(*d->p), b = modeltext(m); check("C16", a == b, "state", [&] { return "the driver holds\n" + a + "expected\n" + b; });
        } else if (ex.empty()) { m.report = d->p->report; m.log = d->p->test_log; m.pos = d->p->nb_test_pos; m.total = d->p->nb_test_total; }
    }
    void op_poptest(const Op &o) { DObj *d = D(o.str(1)); if (!d || d->hollow) return; string env; string ex = guard([&] { env = d->p->get_next_trace_test_env(); d->p->pop_next_trace_test(); }); rec("pop " + env);
        string want = d->m.queue.empty() ? "" : d->m.queue.front().env; if (!d->m.queue.empty()) d->m.queue.pop_front();
        if (on("C16")) check("C16", env == want && d->p->trace_test_queue.size() == d->m.queue.size(), "pop", [&] { return env + " expected " + want; }); }

    void exec(const Op &o) {
        const string &k = o.a[0]; ++ops;
        map<string, string> others;
        if (k == "query" || k == "eval" || k == "runtests" || k == "dump") { Prng g(run.seed ^ opi * 0x9e3779b97f4a7c15ULL); if (g.chance(0.4)) disturb((unsigned)g.below(64)); }
        if (on("C08")) {
            std::set<string> inv; for (size_t i = 1; i < o.a.size(); ++i) inv.insert(o.a[i]);
            for (auto &d : ds) if (!inv.count(d.first) && !d.second.hollow) others[d.first] = dtext(*d.second.p);
            for (auto &m : ms) if (!inv.count(m.first) && !m.second.hollow) others[m.first] = mtext(*m.second.p) + zt(m.second);
            if (k == "getmon") { auto *d = D(o.str(1)); if (d && !d->hollow) others[o.str(1)] = dtext(*d->p); }
        }
        double rows0 = 0; if (on("C17")) { counting() = true; steps() = 0; auto *d = D(o.str(1)); auto *m = M(o.str(1)); rows0 = d ? d->m.rows.size() : m ? m->m.rows.size() : 0;
            if (k == "runtests") { double w = 500; if (d && !d->m.queue.empty()) for (auto &t : d->m.queue.front().tests) w += 300 + load(t.f).w * (rows0 + 12) + load(t.f).nodes * 100; rows0 = w; } }
        if (o.has("at_time")) simtime = std::max(simtime, strtod(o.get("at_time").c_str(), nullptr));
        if (k == "new") { DModel m; std::unique_ptr<STLDriver> p; guard([&] { p.reset(new STLDriver()); }); string n = o.str(1); if (!n.empty() && n[0] == 'd') put(n, std::move(p), m); rec("new"); }
        else if (k == "newdata") { DModel m; DObj *s = D(o.str(2)); string n = o.str(1); if (s && !n.empty() && n[0] == 'd') { m.rows = s->m.rows; std::unique_ptr<STLDriver> p; guard([&] { p.reset(new STLDriver(m.rows)); }); put(n, std::move(p), m); rec("newdata"); } }
        else if (k == "bigm") { Lib l; Signal::set_BigM(o.num(1)); rec("bigm"); }
        else if (k == "parse") op_parse(o);
        else if (k == "add") op_add(o);
        else if (k == "query") op_query(o);
        else if (k == "eval") op_eval(o);
        else if (k == "etime") { MObj *m = M(o.str(1)); if (m && !m->hollow) { m->p->set_eval_time(o.num(2), o.num(3)); m->m.st = o.num(2); m->m.en = o.num(3); rec("etime"); } }
        else if (k == "setp") op_setp(o);
        else if (k == "sem") op_sem(o, false);
        else if (k == "interp") op_sem(o, true);
        else if (k == "getmon") op_getmon(o);
        else if (k == "copy") op_copy(o, 0);
        else if (k == "assign") op_copy(o, 1);
        else if (k == "move") op_copy(o, 2);
        else if (k == "massign") op_copy(o, 3);
        else if (k == "del") { string n = o.str(1); auto *d = D(n); auto *m = M(n); if (d) { auto p = std::move(d->p); d->hollow = true; if (!inthread) ds.erase(n); Lib l; p.reset(); } if (m) { auto p = std::move(m->p); m->hollow = true; if (!inthread) ms.erase(n); Lib l; p.reset(); } rec("del"); }
        else if (k == "clear") op_clear(o);
        else if (k == "print") op_print(o);
        else if (k == "dumptrace") op_dumptrace(o);
        else if (k == "readtrace") op_readtrace(o);
        else if (k == "dumplog") op_dumplog(o);
        else if (k == "dump") op_dump(o);
        else if (k == "mkfile") op_mkfile(o);
        else if (k == "tear") op_tear(o);
        else if (k == "runtests") op_runtests(o);
        else if (k == "poptest") op_poptest(o);
        if (on("C17")) { counting() = false; progress(o, rows0); }
        if (on("C08")) for (auto &x : others) {
            auto *d = D(x.first); auto *m = M(x.first); string now = d ? dtext(*d->p) : m ? mtext(*m->p) + zt(*m) : x.second;
            check("C08", now == x.second, "other-object-changed", [&] { return "'" + plan::line(o) + "' changed " + x.first + " from\n" + x.second + "to\n" + now; });
        }
    }
    // ---------------------------------------------------------- C17: how many steps an operation may take
    // Work an evaluation has to do per sample: every operator handles the breakpoints its operands can have.
    struct Load { double w = 0, seg = 0, depth = 0, nodes = 0; };
    static Load eload(const E &e) { Load r; if (!e) return r; Load a = eload(e->l), b = eload(e->r); r.nodes = 1 + a.nodes + b.nodes; r.w = a.w + b.w + 60; r.depth = 1 + std::max(a.depth, b.depth); return r; }
    static Load load(const F &f) {
        Load r; if (!f) return r;
        if (f->k == Form::ATOM) { Load a = eload(f->le), b = eload(f->re); r.w = 120 + a.w + b.w; r.seg = 1; r.depth = 1 + std::max(a.depth, b.depth); r.nodes = 1 + a.nodes + b.nodes; return r; }
        Load a = load(f->l), b = load(f->r); r.depth = 1 + std::max(a.depth, b.depth); r.nodes = 1 + a.nodes + b.nodes; r.seg = a.seg + b.seg;
        double k = f->k == Form::NOT ? 150 : f->k == Form::EV || f->k == Form::ALW ? 1000 : f->k == Form::UNTIL ? 2500 : 400;
        r.w = a.w + b.w + k * r.seg; return r;
    }
    double allowed(const Op &o, double before) { // before: rows held when the operation began
        const string &k = o.a[0]; DObj *d = D(o.str(1)); MObj *m = M(o.str(1)); double rows = d ? d->m.rows.size() : m ? m->m.rows.size() : 0, width = 1 + (d ? d->m.sigs.size() : m ? m->m.sigs.size() : 0); rows = std::max(rows, before);
        auto build = [&](const F &f) { Load l = load(f); return l.nodes * (250 + 25 * l.depth); };
        double all = 0; if (d) { for (auto &f : d->m.forms) all += 200 + build(f.second); for (auto &t : d->m.tests) all += 300 + build(t.second.f); for (auto &q : d->m.queue) all += 100 + 100 * q.tests.size(); }
        if (k == "query") { auto f = d ? d->m.forms.find(o.str(2)) : d->m.forms.end(); return !d || f == d->m.forms.end() ? 500 : 300 + load(f->second).w * (rows + 12); }
        if (k == "eval") return m && m->m.has ? 300 + load(m->m.f).w * 1.5 * (rows + 12) : 500;
        if (k == "parse") return 3000 + 60 * (double)o.str(3).size() + 3 * all;
        if (k == "getmon") { auto f = d ? d->m.forms.find(o.str(2)) : d->m.forms.end(); return 800 + 25 * rows + (!d || f == d->m.forms.end() ? 0 : build(f->second)); }
        if (k == "copy" || k == "assign") return 1500 + 25 * rows + 4 * all + (m && m->m.has ? 4 * build(m->m.f) : 0);
        if (k == "dumptrace" || k == "print") return 3000 + (rows + 1) * width * 20 + 3 * all + (m && m->m.has ? 4 * build(m->m.f) : 0);
        if (k == "readtrace") return 3000 + (rows + 1) * (50 + width * 30);
        return 3000 + 25 * rows + 4 * all + (m && m->m.has ? 4 * build(m->m.f) : 0);
    }
    double cumadd = 0, nadds = 0;
    void progress(const Op &o, double rows) {
        const string &k = o.a[0];
        if (k == "add") { cumadd += steps(); ++nadds; check("C17", cumadd <= 500 + 30 * nadds, "too-many-steps", [&] { return g17(cumadd) + " steps for " + g17(nadds) + " samples"; }); return; }
        double a = k == "runtests" ? rows : allowed(o, rows); if (!a || steps() == 0) return;
        check("C17", steps() <= a, "too-many-steps", [&] { return g17(steps()) + " steps for '" + plan::line(o).substr(0, 300) + "' with " + g17(rows) + " samples held, " + g17(a) + " are enough"; });
    }
    static string zt(const MObj &m) { if (!m.p->formula) return ""; string s; { Lib l; Signal z = m.p->get_signal(); s = sigtext(z); } return s; }

    void threads(size_t b, size_t e, const Op &head) {
        int n = (int)head.num(1); if (n < 1 || n > 8) return;
        vector<vector<string>> logs(n); vector<std::function<void()>> bodies;
        // an object belongs to the first thread that names it
        map<string, int> owner; vector<vector<const Op *>> todo(n);
        for (size_t i = b; i < e; ++i) { const Op &o = run.ops[i]; int th = (int)o.lng("th", 0); if (th < 0 || th >= n) continue; bool mine = true; for (size_t k = 1; k < o.a.size(); ++k) { const string &w = o.a[k]; if (w.size() == 2 && (w[0] == 'd' || w[0] == 'm') && isdigit(w[1])) { auto it = owner.find(w); if (it == owner.end()) owner[w] = th; else if (it->second != th) mine = false; } } if (mine) todo[th].push_back(&o); }
        for (auto &x : owner) { if (x.first[0] == 'd') ds[x.first]; else ms[x.first]; } // no insertion while threads run
        for (auto it = ds.begin(); it != ds.end(); ++it) if (!it->second.p) it->second.hollow = true;
        for (auto it = ms.begin(); it != ms.end(); ++it) if (!it->second.p) it->second.hollow = true;
        inthread = true;
        for (int i = 0; i < n; ++i) bodies.push_back([this, i, &todo, &logs] { curlog = &logs[i]; for (auto *o : todo[i]) exec(*o); curlog = nullptr; });
        if (serial) { for (auto &f : bodies) f(); }
        else {
            vector<faults::Switch> rep; bool have = head.has("sched");
            if (have) { std::istringstream is(head.get("sched")); faults::Switch s; char c; while (is >> s.edge >> c >> s.to) { rep.push_back(s); is >> c; } }
            faults::budget(60000000);
            auto r = faults::run_threads(bodies, strtoull(head.get("seed").c_str(), nullptr, 10), strtod(head.get("gap").c_str(), nullptr), have ? &rep : nullptr);
            faults::budget(0); trace = r.trace; traced = true; switches += r.trace.size(); fired["thread_switch"] += (long)r.trace.size();
        }
        inthread = false;
        for (int i = 0; i < n; ++i) for (auto &s : logs[i]) log.push_back("T" + std::to_string(i) + " " + s);
    }
    void cleanup() { { Lib l; bystander.reset(); ds.clear(); ms.clear(); } last.clear(); }
    void go() {
        out.clear(); err.clear();
        for (const char *f : {"t0.dat", "t1.dat", "u.dat", "log.txt", "l.txt", "spec.stl", "th0.dat", "th1.dat", "th2.dat", "th3.dat"}) unlink((tmp + "/" + f).c_str()); // the disk is empty at first
        Signal::BigM = 10000.; Signal::semantics = STLRom::Semantics::SPACE; Signal::interpol = STLRom::Interpol::LINEAR;
        for (opi = 0; opi < run.ops.size(); ++opi) {
            const Op &o = run.ops[opi];
            if (o.a[0] == "threads") { size_t e = opi + 1; while (e < run.ops.size() && run.ops[e].a[0] != "join") ++e; threads(opi + 1, e, o); opi = e; continue; }
            if (o.a[0] == "join") continue;
            exec(o);
            if (!viol.empty()) break;
        }
        cleanup();
    }
};
} // namespace world
