#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include "dense.hpp"
inline std::string scratch()
{
  const char* t = getenv("PBT_TMP");
  std::string d = std::string(t ? t : "/tmp") + "/diag" + std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d;
}
// everything printed to stdout while this lives, run in an empty directory
struct Capture {
  int old; std::string dir, file, cwd;
  Capture()
  {
    char b[4096]; cwd = getcwd(b, sizeof b) ? b : "/";
    dir = scratch(); file = dir + "/stdout"; clean();
    fflush(stdout); old = dup(1);
    int f = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(f, 1); close(f);
    if(chdir(dir.c_str())) pbt::fail("harness:chdir", dir);
  }
  std::vector<std::string> files()
  {
    std::vector<std::string> v;
    if(DIR* d = opendir(dir.c_str())) { while(dirent* e = readdir(d)) if(e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); }
    std::sort(v.begin(), v.end());
    return v;
  }
  void clean() { for(auto& f : files()) unlink((dir + "/" + f).c_str()); }
  std::string text() { fflush(stdout); std::string s; if(FILE* f = fopen(file.c_str(), "r")) { char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); } return s; }
  ~Capture() { fflush(stdout); dup2(old, 1); close(old); if(chdir(cwd.c_str())) {} clean(); rmdir(dir.c_str()); }
};
// one dumped system: header, upper or lower triangle by rows, then pairs of right-hand side and solution
struct Dump { int n = 0, nx = 0, me = 0, mi = 0; RM M; std::vector<dvec> rhs, sol; };
inline Dump read_dump(const std::string& f)
{
  Dump d; std::ifstream in(f); int nnz = -1;
  pbt::check(bool(in >> d.n >> d.nx >> d.me >> d.mi >> nnz), "dump:header", f);
  pbt::check(d.n >= 0 && nnz >= 0 && nnz <= d.n * (d.n + 1) / 2, "dump:header", f);
  std::vector<int> p(d.n + 1), j(nnz); dvec a(nnz);
  for(auto& v : p) pbt::check(bool(in >> v), "dump:truncated", f);
  for(auto& v : j) pbt::check(bool(in >> v), "dump:truncated", f);
  auto num = [&](double& v) { std::string t; if(!(in >> t)) return false; char* e; v = strtod(t.c_str(), &e); pbt::check(*e == 0, "dump:number", t); return true; };
  for(auto& v : a) pbt::check(num(v), "dump:truncated", f);
  pbt::check(p[0] == 1 && p[d.n] == nnz + 1, "dump:row-pointers", f);
  d.M = RM(d.n, d.n);
  for(int i = 0; i < d.n; i++) {
    pbt::check(p[i] <= p[i + 1], "dump:row-pointers", f);
    for(int k = p[i] - 1; k < p[i + 1] - 1; k++) { pbt::check(j[k] >= 1 && j[k] <= d.n, "dump:column", f); d.M(i, j[k] - 1) = a[k]; d.M(j[k] - 1, i) = a[k]; }
  }
  for(;;) {
    dvec r(d.n), s(d.n); bool any = false, all = true;
    for(auto& v : r) { if(num(v)) any = true; else all = false; }
    if(!any || d.n == 0) break;
    pbt::check(all, "dump:truncated", f + ": right-hand side");
    for(auto& v : s) pbt::check(num(v), "dump:truncated", f + ": solution");
    d.rhs.push_back(r); d.sol.push_back(s);
  }
  return d;
}
