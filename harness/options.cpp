// C22: option handling against a reference model: API histories, option files (well formed and malformed), precedence
#include <climits>
#include "common.hpp"
#include "hiopOptions.hpp"
#include "hiopLogger.hpp"
#include "options_table.hpp"
#include <map>
#include <unistd.h>
using namespace hiop;
using pbt::check;
using pbt::fail;

static const std::vector<NumDef> PD_NUM = {{"alpha_max", 1e6, 1, 1e14}, {"alpha_min", 1e-5, 1e-8, 1e3}, {"tolerance", 1e-5, 1e-14, 1e-1}, {"acceptable_tolerance", 1e-3, 1e-14, 1e-1}};
static const std::vector<IntDef> PD_INT = {{"acceptable_iterations", 25, 1, 1000000}, {"max_iter", 30000, 1, 1000000000}, {"verbosity_level", 2, 0, 12}};
static const std::vector<StrDef> PD_STR = {{"options_file_master_prob", "hiop_pridec_master.options", ""}, {"mem_space", "default", "default"}, {"print_options", "no", "yes no"}};

struct MOpt { int type; double d, lo, hi; int i, ilo, ihi; std::string s; std::vector<std::string> range; bool file = false, user = false; };
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; std::string w; for(char ch : s + " ") { if(strchr(" \t\n\v\f\r", ch) && ch) { if(!w.empty()) r.push_back(w), w.clear(); } else w += ch; } return r; }
static std::string lower(std::string s) { for(char& ch : s) if(ch >= 'A' && ch <= 'Z') ch += 32; return s; }
struct Model {
  std::map<std::string, MOpt> o; bool pd;
  explicit Model(bool pd_) : pd(pd_)
  {
    for(auto& e : pd ? PD_NUM : NLP_NUM) { MOpt m; m.type = 1; m.d = e.def; m.lo = e.lo; m.hi = e.hi; o[e.name] = m; }
    for(auto& e : pd ? PD_INT : NLP_INT) { MOpt m; m.type = 2; m.i = e.def; m.ilo = e.lo; m.ihi = e.hi; o[e.name] = m; }
    for(auto& e : pd ? PD_STR : NLP_STR) { MOpt m; m.type = 0; m.s = e.def; m.range = words(e.range); o[e.name] = m; }
    ensure();
  }
  void ensure()
  {
    double tol = o["tolerance"].d;
    for(const char* n : {"acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol"}) if(o.count(n) && o[n].d < tol && o[n].user) o[n].d = tol;
    if(pd) return;
    auto& K = o["KKTLinsys"].s; auto& L = o["linear_solver_sparse"].s; auto& F = o["fact_acceptor"].s;
    if(o["Hessian"].s == "quasinewton_approx" && o["Hessian"].user && (K == "xycyd" || K == "xdycyd" || K == "full" || K == "normaleqn")) K = "auto";
    if(o["Hessian"].s == "analytical_exact") o["duals_update_type"].s = "linear";
    if(K == "full" && L != "resolve" && L != "pardiso" && L != "strumpack") L = "auto";
    if(K == "condensed" && L != "cusolver-chol") L = "auto";
    if(L == "resolve" || L == "cusolver-chol") L = "auto";  // no CUDA in this build
    o["compute_mode"].s = "cpu";                              // no GPU in this build
    if((K == "full" || L == "strumpack") && F == "inertia_correction") F = "inertia_free";
    if(o["moving_lim_rel"].d * o["moving_lim_abs"].d != 0) o["moving_lim_rel"].d = 0;
  }
  bool set(const std::string& n, int type, const std::string& s, double d, int i, bool file)
  {
    auto it = o.find(n);
    bool ok = false;
    if(it != o.end() && it->second.type == type) {
      MOpt& m = it->second;
      if(m.file && !file) return false;
      if(type == 1) { if((ok = d >= m.lo && d <= m.hi)) m.d = d; }
      else if(type == 2) { if((ok = i >= m.ilo && i <= m.ihi)) m.i = i; }
      else if(m.range.empty()) ok = true, m.s = s;
      else { std::string l = lower(s); for(auto& r : m.range) if(r == l) ok = true; if(ok) m.s = l; }
      if(ok) { m.user = true; if(file) m.file = true; }
    }
    ensure();
    return ok;
  }
  bool line(const std::string& l)  // one line of an options file
  {
    auto w = words(l);
    if(w.size() < 2 || w[0][0] == '#') return false;
    auto it = o.find(w[0]);
    if(it == o.end()) return false;
    const std::string& v = w[1];
    if(it->second.type == 0) return set(w[0], 0, v, 0, 0, true);
    size_t k = 0, dig = 0; bool isint = true;
    auto run = [&] { size_t a = k; while(k < v.size() && isdigit((unsigned char)v[k])) k++; return k - a; };
    if(k < v.size() && (v[k] == '+' || v[k] == '-')) k++;
    dig = run();
    if(k < v.size() && v[k] == '.') { isint = false; k++; dig += run(); }
    if(dig == 0) return false;
    if(k < v.size() && (v[k] == 'e' || v[k] == 'E')) { isint = false; k++; if(k < v.size() && (v[k] == '+' || v[k] == '-')) k++; if(run() == 0) return false; }
    if(k != v.size()) return false;
    double d = strtod(v.c_str(), nullptr);
    if(it->second.type == 1) { if(std::isinf(d)) return false; return set(w[0], 1, "", d, 0, true); }
    if(!isint || d > 2147483647. || d < -2147483648.) return false;
    return set(w[0], 2, "", 0, (int)d, true);
  }
};
static void compare(Model& M, hiopOptions& O, const std::string& when)
{
  for(auto& e : M.o) {
    const char* n = e.first.c_str(); auto& m = e.second;
    if(m.type == 1) { double v = O.GetNumeric(n); check(v == m.d, "options:value:" + e.first, when + ": numeric option '" + e.first + "' is " + pbt::str(v) + ", expected " + pbt::str(m.d)); }
    if(m.type == 2) { int v = O.GetInteger(n); check(v == m.i, "options:value:" + e.first, when + ": integer option '" + e.first + "' is " + std::to_string(v) + ", expected " + std::to_string(m.i)); }
    if(m.type == 0) { std::string v = O.GetString(n); check(v == m.s, "options:value:" + e.first, when + ": string option '" + e.first + "' is '" + v + "', expected '" + m.s + "'"); }
    check(O.is_user_defined(n) == m.user, "options:user-defined:" + e.first, when + ": is_user_defined('" + e.first + "') is wrong, expected " + std::to_string(m.user));
  }
}
static std::string num_text(Ctx& c, double d)
{
  char b[64];
  switch(c.draw(2)) { case 0: snprintf(b, sizeof b, "%.17g", d); break; case 1: snprintf(b, sizeof b, "%.3e", d); break; default: snprintf(b, sizeof b, "%+.12E", d); }
  return b;
}
static double gen_num(Ctx& c, const MOpt& m)
{
  switch(c.draw(7)) {
  case 0: return m.lo;
  case 1: return m.hi;
  case 2: return std::nextafter(m.lo, -INF);
  case 3: return std::nextafter(m.hi, INF);
  case 4: return -c.uni(0, 10);
  case 5: { double a = std::max(m.lo, 1e-14), b = std::max(a, std::min(m.hi, 1e6)); return std::min(m.hi, std::max(m.lo, a * std::pow(b / a, c.uni(0, 1)))); }
  case 6: return std::min(m.hi, std::max(m.lo, c.pick<double>({1e-8, 1e-6, 1e-4, 1e-2, 0.5, 1., 2., 100.})));
  default: return c.pick<double>({0., 1e300, -1., 1e-20, 2.5});
  }
}
static int gen_int(Ctx& c, const MOpt& m)
{
  switch(c.draw(5)) { case 0: return m.ilo; case 1: return m.ihi; case 2: return m.ilo - 1; case 3: return m.ihi + 1; case 4: return (int)c.range(m.ilo, std::min(m.ihi, 1000)); default: return c.pick<int>({-1, 0, 7, 2147483647, INT_MIN}); }
}
static std::string mixcase(Ctx& c, std::string s) { if(c.chance(1, 3)) for(char& ch : s) if(c.flip()) ch = toupper((unsigned char)ch); return s; }
static std::string junk(Ctx& c)
{
  switch(c.draw(6)) {
  case 0: return c.pick<std::string>({"%s", "%n", "%s%s%s%s%n", "%d%f%999999d", "%"});
  case 1: return c.pick<std::string>({"nan", "inf", "-inf", "1e999", "-1e999", "1e-999", "0x10", "1.5.2", "--3", "1e", "e5", ".", "+", "1,5", "10abc", "1e3x", "99999999999999"});
  case 2: { std::string s; size_t n = c.size(1, 12); for(size_t i = 0; i < n; i++) s += (char)c.range(33, 255); return s; }
  case 3: return std::string(c.pick<int>({100, 1023, 1024, 5000}), c.pick<char>({'a', '%', '1'}));
  case 4: return c.pick<std::string>({"yes", "no", "auto", "none", "default", "YES", "full"});
  case 5: return c.pick<std::string>({"tolerance", "max_iter", "Hessian"});
  default: return c.pick<std::string>({"My_File.Options", "a/B/c.TXT", "x"});
  }
}
static std::string gen_str(Ctx& c, const MOpt& m)
{
  if(m.range.empty() || c.chance(1, 5)) return junk(c);
  return mixcase(c, m.range[c.draw(m.range.size() - 1)]);
}
// names that interact, names in general, and wrong names
static std::string gen_name(Ctx& c, const Model& M)
{
  if(c.chance(1, 8)) return c.flip() ? junk(c) : c.pick<std::string>({"Tolerance", "maxiter", "tol", "hessian"});
  static const std::vector<std::string> hot = {"tolerance", "acceptable_tolerance", "dual_tol", "cons_tol", "comp_tol", "Hessian", "KKTLinsys", "duals_update_type", "fact_acceptor", "moving_lim_abs", "moving_lim_rel", "linear_solver_sparse", "options_file_fr_prob"};
  if(!M.pd && c.chance(1, 2)) return c.pick(hot);
  size_t k = c.draw(M.o.size() - 1);
  auto it = M.o.begin(); std::advance(it, k);
  return it->first;
}
static std::string gen_value(Ctx& c, Model& M, const std::string& n)
{
  auto it = M.o.find(n);
  if(it == M.o.end() || c.chance(1, 7)) return junk(c);
  if(it->second.type == 1) return num_text(c, gen_num(c, it->second));
  if(it->second.type == 2) return std::to_string(gen_int(c, it->second));
  return gen_str(c, it->second);
}
static std::string scratch() { return std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + "/opt." + std::to_string(getpid()); }
static void scenario(Ctx& c, bool pd)
{
  Model M(pd);
  std::string fn = scratch(), text;
  int mode = (int)c.draw(4);  // 0 no file, otherwise a file
  int nacc = 0, nl = mode ? (int)c.size(0, 10) : 0;
  for(int k = 0; k < nl; k++) {
    std::string l;
    switch(c.draw(9)) {
    case 0: l = c.pick<std::string>({"", "   ", "# comment", "#tolerance 1e-3", "\t# x y"}); break;
    case 1: l = junk(c); if(c.flip()) l += " " + junk(c); break;
    case 2: l = gen_name(c, M); break;
    default: { std::string n = gen_name(c, M); l = n + c.pick<std::string>({" ", "\t", "   ", " \t "}) + gen_value(c, M, n); if(c.chance(1, 4)) l = "  " + l; if(c.chance(1, 4)) l += c.pick<std::string>({" ", " # remark", "\t trailing words 3"}); }
    }
    if(l.find('\n') != std::string::npos) continue;
    bool cr = c.chance(1, 10);
    text += l + (cr ? "\r" : "") + (k + 1 == nl && c.flip() ? "" : "\n");
    nacc += M.line(l + (cr ? "\r" : ""));
  }
  M.ensure();
  if(mode) { FILE* f = fopen(fn.c_str(), "wb"); check(f, "harness:scratch"); fwrite(text.data(), 1, text.size(), f); fclose(f); }
  else fn = c.flip() ? "/nonexistent/dir/hiop.options" : std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp");  // missing file, or a directory
  c << (pd ? "PriDec" : "NLP") << " file:\n" << pbt::quote(text) << "\n";
  std::unique_ptr<hiopOptions> O;
  if(pd) O.reset(new hiopOptionsPriDec(fn.c_str())); else O.reset(new hiopOptionsNLP(fn.c_str()));
  if(mode) unlink(fn.c_str());
  compare(M, *O, "after reading the file");
  FILE* dn = fopen("/dev/null", "w");
  std::unique_ptr<FILE, int (*)(FILE*)> own(dn, fclose);
  hiopLogger log(O.get(), dn);
  if(c.flip()) O->SetLog(&log);
  int ns = (int)c.range(0, 10), napi = 0;
  for(int k = 0; k < ns; k++) {
    std::string n = gen_name(c, M); auto it = M.o.find(n);
    int type = it == M.o.end() || c.chance(1, 10) ? (int)c.draw(2) : it->second.type;
    bool ff = c.chance(1, 5), acc;
    if(type == 1) { double v = c.chance(1, 12) ? c.pick<double>({NaN, INF, -INF}) : it != M.o.end() && it->second.type == 1 ? gen_num(c, it->second) : c.uni(0, 2); c << " SetNumeric(" << pbt::quote(n) << "," << pbt::str(v) << "," << ff << ")\n"; O->SetNumericValue(n.c_str(), v, ff); acc = M.set(n, 1, "", v, 0, ff); }
    else if(type == 2) { int v = it != M.o.end() && it->second.type == 2 ? gen_int(c, it->second) : (int)c.range(0, 9); c << " SetInteger(" << pbt::quote(n) << "," << v << "," << ff << ")\n"; O->SetIntegerValue(n.c_str(), v, ff); acc = M.set(n, 2, "", 0, v, ff); }
    else { std::string v = it != M.o.end() && it->second.type == 0 ? gen_str(c, it->second) : junk(c); c << " SetString(" << pbt::quote(n) << "," << pbt::quote(v) << "," << ff << ")\n"; O->SetStringValue(n.c_str(), v.c_str(), ff); acc = M.set(n, 0, v, 0, 0, ff); }
    napi += acc;
    compare(M, *O, "after assignment " + std::to_string(k));
  }
  c.nontrivial(nacc + napi >= 2);
  c.label(nacc ? napi ? "file+api" : "file" : napi ? "api" : "defaults");
  if(c.chance(1, 4) && !pd) {  // the printed options are the options
    bool sh = M.o["print_options"].s == "short";
    char* buf = nullptr; size_t len = 0; FILE* f = open_memstream(&buf, &len);
    O->print(f); fclose(f);
    std::string out(buf, len); free(buf);
    std::map<std::string, std::string> got; size_t p = 0;
    while(p < out.size()) { size_t q = out.find('\n', p); if(q == std::string::npos) q = out.size(); auto w = words(out.substr(p, q - p)); if(w.size() >= 2 && M.o.count(w[0]) && !got.count(w[0])) { got[w[0]] = w[1]; if(sh) check(w.size() == 2, "options:print-short", "short listing has more than the value: " + w[0]); } p = q + 1; }
    for(auto& e : M.o) {
      check(got.count(e.first), "options:print-missing", "option '" + e.first + "' is not printed");
      std::string g = got[e.first], w; char b[64];
      if(e.second.type == 1) snprintf(b, sizeof b, "%.3e", e.second.d), w = b; else if(e.second.type == 2) w = std::to_string(e.second.i); else { auto t = words(e.second.s); w = t.empty() ? g : t[0]; }
      if(e.second.type == 1) check(std::fabs(atof(g.c_str()) - e.second.d) <= 1e-3 * std::fabs(e.second.d), "options:print", "option '" + e.first + "' printed as " + g + ", value " + pbt::str(e.second.d));
      else check(g == w, "options:print", "option '" + e.first + "' printed as '" + g + "', value '" + w + "'");
    }
    c.label("print");
  }
}
PBT_TARGET(options_nlp) { scenario(c, false); }
PBT_TARGET(options_pridec) { scenario(c, true); }
