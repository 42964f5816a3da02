// A plan is the complete, explicit input of one simulated execution: every operation, delivery, fault and thread
// switch. Executing it is a pure function of the plan and the code.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace plan {
using std::string; using std::vector;
struct Op {
    vector<string> a;                 // words
    std::map<string, string> kv;      // fault and mode attributes
    string str(size_t i) const { return i < a.size() ? a[i] : string(); }
    double num(size_t i) const { return i < a.size() ? strtod(a[i].c_str(), nullptr) : 0; }
    bool has(const string &k) const { return kv.count(k) > 0; }
    string get(const string &k) const { auto i = kv.find(k); return i == kv.end() ? string() : i->second; }
    long lng(const string &k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), nullptr, 10); }
};
struct Run { string prop; unsigned long long seed = 0; vector<Op> ops; double simtime = 0; std::map<string, long> faults; };
inline string quote(const string &s) {
    bool plain = !s.empty(); for (char c : s) if (!(isalnum((unsigned char)c) || strchr("._-+:/^", c))) plain = false;
    if (plain) return s;
    string r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); r += b; } else r += c; }
    return r + "\"";
}
inline string d2s(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); double w = strtod(b, nullptr); for (int p = 1; p < 17; ++p) { char c[40]; snprintf(c, sizeof c, "%.*g", p, v); if (strtod(c, nullptr) == w) return c; } return b; }
inline string line(const Op &o) { string s; for (auto &w : o.a) s += (s.empty() ? "" : " ") + quote(w); for (auto &k : o.kv) s += " " + k.first + "=" + quote(k.second); return s; }
inline string text(const Run &r) { string s = "run " + r.prop + " " + std::to_string(r.seed) + "\n"; for (auto &o : r.ops) s += line(o) + "\n"; return s + "end\n"; }
inline bool word(const string &l, size_t &p, string &out) { // returns false at end of line
    while (p < l.size() && l[p] == ' ') ++p;
    if (p >= l.size()) return false;
    out.clear();
    while (p < l.size() && l[p] != ' ') {
        if (l[p] == '"') {
            ++p;
            while (p < l.size() && l[p] != '"') {
                if (l[p] == '\\' && p + 1 < l.size()) { char c = l[++p]; if (c == 'n') out += '\n'; else if (c == 'r') out += '\r'; else if (c == 't') out += '\t'; else if (c == 'x') { out += (char)strtol(l.substr(p + 1, 2).c_str(), nullptr, 16); p += 2; } else out += c; ++p; }
                else out += l[p++];
            }
            ++p;
        } else out += l[p++];
    }
    return true;
}
inline vector<Run> parse(const string &t) {
    vector<Run> v; size_t b = 0; Run r; bool in = false;
    while (b < t.size()) {
        size_t e = t.find('\n', b); if (e == string::npos) e = t.size();
        string l = t.substr(b, e - b); b = e + 1;
        if (l.empty() || l[0] == '#') continue;
        if (!in) { if (l.compare(0, 4, "run ") == 0) { r = Run(); size_t p = 4; string w; word(l, p, r.prop); word(l, p, w); r.seed = strtoull(w.c_str(), nullptr, 10); in = true; } continue; }
        if (l == "end") { v.push_back(r); in = false; continue; }
        Op o; size_t p = 0; string w;
        while (true) {
            while (p < l.size() && l[p] == ' ') ++p;
            size_t q = p; bool attr = false; while (q < l.size() && (isalnum((unsigned char)l[q]) || l[q] == '_')) ++q;
            if (q > p && q < l.size() && l[q] == '=' && isalpha((unsigned char)l[p])) attr = true;
            if (attr) { string k = l.substr(p, q - p); p = q + 1; w.clear(); if (p < l.size() && l[p] != ' ') word(l, p, w); o.kv[k] = w; }
            else { if (!word(l, p, w)) break; o.a.push_back(w); }
        }
        if (!o.a.empty()) r.ops.push_back(o);
    }
    return v;
}
} // namespace plan
