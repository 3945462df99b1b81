#include "tools.h"
#include "rt.h"
#include <algorithm>
#include <set>
#include <sstream>

namespace tools {
using std::string;
using std::vector;

string base(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? p : p.substr(k + 1); }
string dir(const string &p) { size_t k = p.rfind('/'); return k == string::npos ? "" : p.substr(0, k); }

vector<string> split_cmd(const string &c) {
  vector<string> v;
  string cur;
  bool in = false, has = false;
  char q = 0;
  for (char ch : c) {
    if (in) { if (ch == q) in = false; else cur += ch; continue; }
    if (ch == '"' || ch == '\'') { in = true; has = true; q = ch; continue; }
    if (ch == ' ' || ch == '\t' || ch == '\n') { if (has) { v.push_back(cur); cur.clear(); has = false; } continue; }
    cur += ch; has = true;
  }
  if (has) v.push_back(cur);
  return v;
}

string seal(const string &b) { return b + "SUM " + sim::hex(sim::fnv(b)) + "\n"; }
bool sealed(const string &d, string *body) {
  if (d.size() < 21 || d.back() != '\n') return false;
  size_t k = d.size() - 21;
  if (d.compare(k, 4, "SUM ")) return false;
  string b = d.substr(0, k);
  if (seal(b) != d) return false;
  if (body) *body = b;
  return true;
}

static vector<string> lines(const string &s) {
  vector<string> v;
  std::istringstream is(s);
  string l;
  while (std::getline(is, l)) { if (!l.empty() && l.back() == '\r') l.pop_back(); v.push_back(l); }
  return v;
}
static bool quoted(const string &l, const char *kw, string &name) {
  string k = kw;
  if (l.compare(0, k.size(), k)) return false;
  size_t a = l.find('"'), b = l.rfind('"');
  if (a == string::npos || b <= a) return false;
  name = l.substr(a + 1, b - a - 1);
  return true;
}
static bool resolve(const string &from, const string &name, const vector<string> &inc, const Reader &rd, string &path, string &text) {
  vector<string> c;
  if (!name.empty() && name[0] == '/') c.push_back(name);
  else {
    c.push_back(dir(from) + "/" + name);
    for (auto &i : inc) c.push_back((i.size() > 1 && i.back() == '/' ? i.substr(0, i.size() - 1) : i) + "/" + name);
  }
  for (auto &p : c) if (rd(p, text)) { path = p; return true; }
  path = c[0];
  return false;
}
struct Flat { string text, err; std::set<string> seen; };
static void flatten(const string &path, const string &text, const vector<string> &inc, const Reader &rd, Flat &f, int depth) {
  if (depth > 40) { f.err = "include nested too deeply"; return; }
  if (!f.seen.insert(path).second) return;
  for (auto &l : lines(text)) {
    string n, p, t;
    if (quoted(l, "#include", n)) {
      if (!resolve(path, n, inc, rd, p, t)) { f.err = path + ": " + n + ": No such file"; return; }
      f.text += "{" + base(p) + "\n";
      flatten(p, t, inc, rd, f, depth + 1);
      f.text += "}\n";
      if (!f.err.empty()) return;
    } else if (quoted(l, ".incbin", n)) {
      if (!rd(n, t)) { f.err = n + ": cannot open"; return; }
      f.text += "BIN " + base(n) + " " + sim::hex(sim::fnv(t)) + "\n";
    } else if (l.compare(0, 6, "#error") == 0) { f.err = path + ": " + l; return; }
    else f.text += l + "\n";
  }
}
void closure(const string &file, const vector<string> &inc, const Reader &rd, vector<string> &headers, vector<string> &bins) {
  std::set<string> seen;
  std::function<void(const string &, int)> go = [&](const string &p, int d) {
    string text;
    if (d > 40 || !rd(p, text)) return;
    for (auto &l : lines(text)) {
      string n, q, t;
      if (quoted(l, "#include", n)) {
        resolve(p, n, inc, rd, q, t);
        if (seen.insert(q).second) { headers.push_back(q); go(q, d + 1); }
      } else if (quoted(l, ".incbin", n)) { if (seen.insert(n).second) bins.push_back(n); }
    }
  };
  go(file, 0);
}

string gen_text(const string &tag, const string &out, const vector<std::pair<string, string>> &inputs) {
  auto in = inputs;
  std::sort(in.begin(), in.end());
  string s = "// generated " + base(out) + " by " + tag + "\n";
  for (auto &p : in) s += "// from " + base(p.first) + " " + sim::hex(sim::fnv(p.second)) + "\n";
  s += "int g_" + sim::hex(sim::fnv(tag + out)) + ";\n";
  return s;
}

struct Args {
  string prog, out, pinc;
  vector<string> inc, lib, flags, in, rest;   // rest: -l and library files in order
  bool c = false, shared = false, H = false;
};
static Args parse(const vector<string> &av) {
  Args a;
  a.prog = av[0];
  for (size_t i = 1; i < av.size(); i++) {
    const string &s = av[i];
    if (s == "-o" && i + 1 < av.size()) a.out = av[++i];
    else if (s == "-include" && i + 1 < av.size()) a.pinc = av[++i];
    else if (s == "-c") a.c = true;
    else if (s == "-H") a.H = true;
    else if (s == "-shared") a.shared = true;
    else if (s.compare(0, 6, "--inc=") == 0) a.inc.push_back(s.substr(6));
    else if (s.compare(0, 6, "--lib=") == 0) a.lib.push_back(s.substr(6));
    else if (s.compare(0, 2, "-I") == 0) a.inc.push_back(s.substr(2));
    else if (s.compare(0, 2, "-L") == 0) a.lib.push_back(s.substr(2));
    else if (s.compare(0, 2, "-l") == 0) a.rest.push_back(s);
    else if (s[0] == '-') a.flags.push_back(s);
    else a.in.push_back(s);
  }
  std::stable_sort(a.flags.begin(), a.flags.end(), [](const string &x, const string &y) { return x.substr(0, 3) < y.substr(0, 3); });
  return a;
}
// cl, link and lib take options that start with a slash
struct MsArgs { string prog, out, obj, yc, yu, fi, fp, implib; vector<string> inc, lib, flags, in; bool dll = false; };
static bool opt(const string &s, const char *o, string &v) { string k = o; if (s.compare(0, k.size(), k)) return false; v = s.substr(k.size()); return true; }
static MsArgs ms_parse(const vector<string> &av) {
  MsArgs a;
  a.prog = base(av[0]);
  const bool cl = a.prog == "cl";
  for (size_t i = 1; i < av.size(); i++) {
    const string &s = av[i];
    string v;
    if (cl && s == "/c") continue;
    else if (s == "/nologo" || s == "/EHsc") a.flags.push_back(s);
    else if (cl && opt(s, "/Yc", a.yc)) continue;
    else if (cl && opt(s, "/Yu", a.yu)) continue;
    else if (cl && opt(s, "/FI", a.fi)) continue;
    else if (cl && opt(s, "/Fp", a.fp)) continue;
    else if (cl && opt(s, "/Fo", a.obj)) continue;
    else if (cl && opt(s, "/I", v)) a.inc.push_back(v);
    else if (!cl && opt(s, "/OUT:", a.out)) continue;
    else if (!cl && opt(s, "/IMPLIB:", a.implib)) continue;
    else if (!cl && opt(s, "/LIBPATH:", v)) a.lib.push_back(v);
    else if (!cl && s == "/DLL") a.dll = true;
    else if (s[0] == '-' && s.compare(0, 2, "-l") && s.compare(0, 2, "-T")) a.flags.push_back(s);
    else a.in.push_back(s);
  }
  std::stable_sort(a.flags.begin(), a.flags.end(), [](const string &x, const string &y) { return x.substr(0, 3) < y.substr(0, 3); });
  return a;
}
static bool ms_tool(const string &b) { return b == "cl" || b == "lib" || b == "link"; }
static string join(const vector<string> &v) { string s; for (auto &x : v) { s += ' '; s += x; } return s; }

Result classify(const vector<string> &av) {
  Result r;
  if (av.empty()) return r;
  string b = base(av[0]);
  if (ms_tool(b)) {
    MsArgs a = ms_parse(av);
    r.kind = b == "lib" ? 'a' : b == "link" ? 'l' : !a.yc.empty() ? 'p' : 'c';
    r.out = b != "cl" ? (a.implib.empty() ? a.out : a.implib) : !a.yc.empty() ? a.fp : a.obj;
  } else if (b == "g++" || b == "gcc" || b == "as" || b == "ld") {
    Args a = parse(av);
    r.out = a.out;
    for (auto &s : av) if (s == "-dumpversion" || s == "-dumpmachine") { r.kind = 'v'; return r; }
    if (a.c) r.kind = base(a.out).find(".gch") != string::npos ? 'p' : 'c';
    else r.kind = 'l';
  } else if (b == "ar") { r.kind = 'a'; if (av.size() > 2) r.out = av[2]; }
  else if (b == "gen") { r.kind = 'g'; for (size_t i = 1; i + 1 < av.size(); i++) if (av[i] == "-o" && r.out.empty()) r.out = av[i + 1]; }
  else if (b == "echoer") { r.kind = 'x'; }
  else { r.kind = 't'; r.out = av[0]; }
  return r;
}

static void fail(Result &r, int rc, const string &why) { r.rc = rc; r.se += why + "\n"; }

Result run(const vector<string> &av, const Reader &rd) {
  Result r = classify(av);
  if (av.empty()) { r.rc = 127; return r; }
  string self;
  string prog = av[0];
  if (prog.find('/') == string::npos) prog = "/w/tc/t0/bin/" + prog;   // PATH
  if (!rd(prog, self)) { fail(r, 127, "sh: " + prog + ": not found"); return r; }
  string b = base(prog);
  if (r.kind != 't') {
    if (self.compare(0, 5, "TOOL ")) { fail(r, 126, "sh: " + prog + ": not executable"); return r; }
  }
  string toolid = self.substr(0, self.find('\n'));
  auto prop = [&](const char *k) { string kk = string(k) + " "; for (auto &l : lines(self)) if (l.compare(0, kk.size(), kk) == 0) return l.substr(kk.size()); return string(); };
  if (r.kind == 'v') {
    bool ver = false;
    for (auto &s : av) if (s == "-dumpversion") ver = true;
    string v = prop(ver ? "version" : "machine");
    string rc = prop(ver ? "version_rc" : "machine_rc");
    r.rc = rc.empty() ? 0 : std::stoi(rc);
    if (v == "EMPTY") r.so = "";
    else r.so = v + "\n";
    return r;
  }
  if (b == "cl") {
    MsArgs a = ms_parse(av);
    string src;
    if (a.in.size() != 1 || a.obj.empty()) { fail(r, 1, "bad usage"); return r; }
    if (!rd(a.in[0], src)) { fail(r, 1, a.in[0] + ": No such file"); return r; }
    string file = a.in[0];
    string body = "OBJ " + toolid + " " + file + "\nF" + join(a.flags) + "\nI" + join(a.inc) + "\n";
    Flat f;
    if (r.kind == 'p') {
      string h;
      if (a.fi != a.yc || a.fp.empty()) { fail(r, 1, "cl: bad usage"); return r; }
      if (!rd(a.yc, h)) { fail(r, 1, a.yc + ": No such file"); return r; }
      flatten(a.yc, h, a.inc, rd, f, 0);
      if (!f.err.empty()) { fail(r, 1, f.err); return r; }
      string pb = "PCH " + toolid + " " + a.yc + "\nF" + join(a.flags) + "\nI" + join(a.inc) + "\n" + f.text;
      r.writes.push_back({a.fp, seal(pb)});
      r.writes.push_back({a.obj, seal(body + "P " + sim::hex(sim::fnv(pb)) + "\n")});
      return r;
    }
    if (!a.yu.empty()) {
      string g, gb;
      if (a.fi != a.yu || !rd(a.fp, g) || !sealed(g, &gb) || gb.compare(0, 3, "PCH")) { fail(r, 1, a.fp + ": cannot use precompiled header"); return r; }
      body += "P " + sim::hex(sim::fnv(gb)) + "\n";
    }
    flatten(file, src, a.inc, rd, f, 0);
    if (!f.err.empty()) { fail(r, 1, f.err); return r; }
    r.writes.push_back({a.obj, seal(body + f.text)});
    return r;
  }
  if (b == "lib" || b == "link") {
    MsArgs a = ms_parse(av);
    if (a.out.empty()) { fail(r, 1, "no output"); return r; }
    vector<string> objs;
    string libs, extra;
    for (auto &s : a.in) {
      string t, tb;
      if (s.compare(0, 2, "-l") == 0) {
        bool got = false;
        for (auto &d : a.lib) if (!got && rd((d.size() > 1 && d.back() == '/' ? d.substr(0, d.size() - 1) : d) + "/lib" + s.substr(2) + ".a", t)) { got = true; libs += "l " + s.substr(2) + " " + sim::hex(sim::fnv(t)) + "\n"; }
        if (!got) { fail(r, 1, "cannot find " + s); return r; }
        continue;
      }
      if (s.compare(0, 2, "-T") == 0) { if (!rd(s.substr(2), t)) { fail(r, 1, "cannot open " + s); return r; } extra += "T " + sim::hex(sim::fnv(t)) + "\n"; continue; }
      if (!rd(s, t)) { fail(r, 1, s + ": No such file"); return r; }
      if (!sealed(t, &tb)) { fail(r, 1, s + ": file format not recognized"); return r; }
      if (tb.compare(0, 3, "OBJ") == 0) objs.push_back("O " + s + " " + sim::hex(sim::fnv(tb)));
      else if (b == "link" && (tb.compare(0, 2, "AR") == 0 || tb.compare(0, 3, "IMP") == 0)) libs += "L " + s + " " + sim::hex(sim::fnv(tb)) + "\n";
      else { fail(r, 1, s + ": unexpected input"); return r; }
    }
    std::sort(objs.begin(), objs.end());
    string body = string(b == "lib" ? "AR " : a.dll ? "DSO " : "EXE ") + toolid + "\nF" + join(a.flags) + "\n" + extra;
    for (auto &o : objs) body += o + "\n";
    body += libs + "D" + join(a.lib) + "\n";
    r.writes.push_back({a.out, seal(body)});
    if (a.dll) {
      if (a.implib.empty()) { fail(r, 1, "link: no import library"); return r; }
      r.writes.push_back({a.implib, seal("IMP " + sim::hex(sim::fnv(body)) + "\n")});
    }
    return r;
  }
  if (r.kind == 'c' || r.kind == 'p') {
    Args a = parse(av);
    if (a.in.size() != 1 || a.out.empty()) { fail(r, 1, "bad usage"); return r; }
    string src;
    if (!rd(a.in[0], src)) { fail(r, 1, a.in[0] + ": No such file"); return r; }
    string body = string(r.kind == 'p' ? "PCH " : "OBJ ") + toolid + " " + a.in[0] + "\nF" + join(a.flags) + "\nI" + join(a.inc) + "\n";
    if (!a.pinc.empty()) {
      string g, gb;
      if (rd(a.pinc + ".gch", g) && sealed(g, &gb)) body += "P " + sim::hex(sim::fnv(gb)) + "\n";
      else {
        string h;
        if (!rd(a.pinc, h)) { fail(r, 1, a.pinc + ": No such file"); return r; }
        Flat f;
        flatten(a.pinc, h, a.inc, rd, f, 0);
        if (!f.err.empty()) { fail(r, 1, f.err); return r; }
        body += "PTEXT " + sim::hex(sim::fnv(f.text)) + "\n";
      }
    }
    Flat f;
    flatten(a.in[0], src, a.inc, rd, f, 0);
    if (!f.err.empty()) { fail(r, 1, f.err); return r; }
    body += f.text;
    r.writes.push_back({a.out, seal(body)});
    if (a.H) r.se += "! " + a.pinc + ".gch\n";
    return r;
  }
  if (r.kind == 'l') {
    Args a = parse(av);
    if (a.out.empty()) { fail(r, 1, "no output"); return r; }
    vector<string> objs;
    string libs;
    string body = string(a.shared ? "DSO " : "EXE ") + toolid + "\nF" + join(a.flags) + "\n";
    auto lib_of = [&](const string &l) -> bool {
      for (auto &d : a.lib) { string t; string p = (d.size() > 1 && d.back() == '/' ? d.substr(0, d.size() - 1) : d) + "/lib" + l + ".a"; if (rd(p, t)) { libs += "l " + l + " " + sim::hex(sim::fnv(t)) + "\n"; return true; } }
      return false;
    };
    vector<string> ext;
    for (size_t i = 1; i < av.size(); i++) {
      const string &s = av[i];
      if (s == "-o") { i++; continue; }
      if (s == "-lpthread") { libs += s + "\n"; continue; }
      if (s.compare(0, 2, "-l") == 0) { if (!lib_of(s.substr(2))) { fail(r, 1, "cannot find " + s); return r; } continue; }
      if (s.compare(0, 2, "-T") == 0) { string t; if (!rd(s.substr(2), t)) { fail(r, 1, "cannot open " + s); return r; } body += "T " + sim::hex(sim::fnv(t)) + "\n"; continue; }
      if (s[0] == '-') continue;
      string t, tb;
      if (!rd(s, t)) { fail(r, 1, s + ": No such file"); return r; }
      if (!sealed(t, &tb)) { fail(r, 1, s + ": file format not recognized"); return r; }
      if (tb.compare(0, 3, "OBJ") == 0) objs.push_back("O " + s + " " + sim::hex(sim::fnv(tb)));
      else if (tb.compare(0, 2, "AR") == 0 || tb.compare(0, 3, "DSO") == 0) libs += "L " + s + " " + sim::hex(sim::fnv(tb)) + "\n";
      else { fail(r, 1, s + ": unexpected input"); return r; }
    }
    std::sort(objs.begin(), objs.end());
    for (auto &o : objs) body += o + "\n";
    body += libs + "D" + join(a.lib) + "\n";
    r.writes.push_back({a.out, seal(body)});
    const string imp = "-Wl,--out-implib,";
    for (auto &x : a.flags) if (x.compare(0, imp.size(), imp) == 0) r.writes.push_back({x.substr(imp.size()), seal("IMP " + sim::hex(sim::fnv(body)) + "\n")});
    return r;
  }
  if (r.kind == 'a') {
    if (av.size() < 3 || av[1] != "rcs") { fail(r, 1, "ar: bad usage"); return r; }
    string old, ob;
    vector<std::pair<string, string>> mem, add;
    if (rd(av[2], old)) {
      if (!sealed(old, &ob) || ob.compare(0, 2, "AR")) { fail(r, 1, av[2] + ": file format not recognized"); return r; }
      for (auto &l : lines(ob)) if (l.compare(0, 2, "M ") == 0) { auto v = split_cmd(l); mem.push_back({v[1], v[2]}); }
    }
    for (size_t i = 3; i < av.size(); i++) {
      string t, tb;
      if (!rd(av[i], t)) { fail(r, 1, av[i] + ": No such file"); return r; }
      if (!sealed(t, &tb)) { fail(r, 1, av[i] + ": file truncated"); return r; }
      add.push_back({base(av[i]), sim::hex(sim::fnv(tb))});
    }
    vector<std::pair<string, string>> res;
    for (auto &m : mem) { bool rep = false; for (auto &x : add) if (x.first == m.first) rep = true; if (!rep) res.push_back(m); }
    for (auto &x : add) res.push_back(x);
    std::sort(res.begin(), res.end());
    string body = "AR " + toolid + "\n";
    for (auto &m : res) body += "M " + m.first + " " + m.second + "\n";
    r.writes.push_back({av[2], seal(body)});
    return r;
  }
  if (r.kind == 'g') {
    // gen [-a tag] (-o out)+ in*
    string tag;
    vector<string> outs, ins;
    for (size_t i = 1; i < av.size(); i++) {
      if (av[i] == "-a" && i + 1 < av.size()) tag = av[++i];
      else if (av[i] == "-o" && i + 1 < av.size()) outs.push_back(av[++i]);
      else ins.push_back(av[i]);
    }
    vector<std::pair<string, string>> in;
    for (auto &i : ins) {
      string t;
      if (!rd(i, t)) { fail(r, 1, i + ": No such file"); return r; }
      if (t.find("#error") != string::npos) { fail(r, 1, i + ": bad input"); return r; }
      in.push_back({i, t});
    }
    for (auto &o : outs) r.writes.push_back({o, gen_text(tag, o, in)});
    return r;
  }
  if (r.kind == 't') {
    string body;
    if (!sealed(self, &body) || body.compare(0, 3, "EXE")) { fail(r, 126, prog + ": cannot execute"); return r; }
    string tag = "x";
    int nl = 0, ne = 0;
    for (size_t i = 1; i + 1 < av.size(); i++) {
      if (av[i] == "--tag") tag = av[i + 1];
      if (av[i] == "--lines") nl = std::stoi(av[i + 1]);
      if (av[i] == "--elines") ne = std::stoi(av[i + 1]);
      if (av[i] == "--rc") r.rc = std::stoi(av[i + 1]);
    }
    for (int i = 0; i < nl; i++) r.so += "<" + tag + ":o:" + std::to_string(i) + ">\n";
    for (int i = 0; i < ne; i++) r.se += "<" + tag + ":e:" + std::to_string(i) + ">\n";
    return r;
  }
  if (b == "echoer") {
    // echoer --rc N --out TEXT --err TEXT --outn N --errn N
    string o, e;
    long on = 1, en = 1;
    for (size_t i = 1; i + 1 < av.size(); i++) {
      if (av[i] == "--rc") r.rc = std::stoi(av[i + 1]);
      if (av[i] == "--out") o = av[i + 1];
      if (av[i] == "--err") e = av[i + 1];
      if (av[i] == "--outn") on = std::stol(av[i + 1]);
      if (av[i] == "--errn") en = std::stol(av[i + 1]);
    }
    // lines end in a newline, a carriage return, a NUL, bytes above 127, or not at all
    auto odd = [](const string &t, long i) { uint64_t h = sim::fnv(t + std::to_string(i)) >> 20; return h % 7 == 0 ? string("\0", 1) : h % 7 == 1 ? string("\r\n") : h % 7 == 2 ? string("\xff\xfe{}%s\n") : h % 7 == 3 ? string() : string("\n"); };
    for (long i = 0; i < on && !o.empty(); i++) r.so += o + std::to_string(i) + odd(o, i);
    for (long i = 0; i < en && !e.empty(); i++) r.se += e + std::to_string(i) + odd(e, i);
    return r;
  }
  fail(r, 127, "unknown tool");
  return r;
}
}  // namespace tools
