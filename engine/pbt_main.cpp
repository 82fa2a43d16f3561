#include "pbt.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#ifdef PBT_MPI
#include <mpi.h>
#endif

namespace pbt {
std::vector<Target>& targets() { static std::vector<Target> t; return t; }
Hooks& hooks() { static Hooks h; return h; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static Shared* g_beat = nullptr;
void beat() { if(g_beat) g_beat->beat = g_beat->beat + 1; }
static void arm_cpu(double sec)
{
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)sec;
  it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

struct Outcome {
  int state = 0;  // 2 ok, 3 fail, 4 discard
  std::string key, msg;
  std::vector<uint64_t> choices;
  bool fail() const { return state == 3; }
};

static void run_case(const Target& t, Ctx& c, Shared* sh)
{
  sh->state = 1;
  if(!g_beat) arm_cpu(t.cpu_limit);  // groups of ranks are watched from outside
  try {
    t.fn(c);
    sh->state = 2;
  } catch(const Fail& f) {
    snprintf(sh->key, sizeof sh->key, "%s", f.key.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    sh->state = 3;
  } catch(const Discard&) {
    sh->state = 4;
  } catch(const std::exception& e) {
    snprintf(sh->key, sizeof sh->key, "exception:%s", e.what());
    snprintf(sh->msg, sizeof sh->msg, "uncaught C++ exception: %s", e.what());
    sh->state = 3;
  }
  arm_cpu(0);
}

static std::string slurp(const char* f, size_t max = 200000)
{
  std::string s;
  FILE* fp = fopen(f, "r");
  if(!fp) return s;
  char b[4096];
  size_t k;
  while((k = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, k);
  fclose(fp);
  return s;
}

// classify an abnormal end of a worker from its stderr
static void classify_crash(int status, const std::string& err, std::string& key, std::string& msg)
{
  size_t p;
  if(WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) {
    key = "timeout";
    msg = "case exceeded its CPU time limit (non-termination)";
    return;
  }
  if(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
    key = "hang";
    msg = "case made no progress and was killed";
    return;
  }
  if((p = err.find("Assertion `")) != std::string::npos) {
    size_t b = err.rfind('\n', p);
    b = (b == std::string::npos) ? 0 : b + 1;
    size_t e = err.find('\n', p);
    std::string line = err.substr(b, e - b);
    size_t q = line.find("Assertion `");
    std::string expr = line.substr(q, 160);
    // function name: between ": " and ": Assertion"
    std::string fn;
    size_t fe = q >= 2 ? q - 2 : 0;
    size_t par = line.rfind('(', fe);
    for(size_t i = 0; i + 1 < line.size() && i < fe; i++)
      if(line[i] == '(') { par = i; break; }
    size_t sp = line.rfind(' ', par);
    if(sp != std::string::npos && par != std::string::npos && par > sp) fn = line.substr(sp + 1, par - sp - 1);
    key = "assert:" + fn + ":" + expr;
    msg = "assertion of the code under test failed: " + line;
    return;
  }
  if((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    size_t e = err.find_first_of(" \n", p + 25);
    std::string kind = err.substr(p + 25, e - p - 25);
    std::string fn;
    size_t q = p;
    while((q = err.find(" in ", q)) != std::string::npos) {
      size_t e2 = err.find_first_of("(\n", q);
      std::string f = err.substr(q + 4, e2 - q - 4);
      if(f.find("hiop") != std::string::npos || f.find("hiop::") == 0) { fn = f; break; }
      q += 4;
    }
    if(fn.empty() && (q = err.find("#1 ")) != std::string::npos) {
      size_t q2 = err.find(" in ", q);
      if(q2 != std::string::npos) fn = err.substr(q2 + 4, err.find_first_of(" (\n", q2 + 4) - q2 - 4);
    }
    key = "asan:" + kind + ":" + fn;
    msg = "AddressSanitizer: " + err.substr(p, 1500);
    return;
  }
  if(WIFSIGNALED(status)) {
    key = "signal:" + std::to_string(WTERMSIG(status));
    msg = "killed by signal " + std::to_string(WTERMSIG(status)) + "; stderr: " + err.substr(0, 1500);
    return;
  }
  key = "exit:" + std::to_string(WEXITSTATUS(status));
  msg = "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(status)) + "; stderr: " + err.substr(0, 1500);
}

static std::string tmpdir = "/tmp";

static void redirect(const std::string& errfile)
{
  int fd = open("/dev/null", O_WRONLY);
  dup2(getenv("PBT_STDERR") ? 2 : fd, 1);
  close(fd);
  fd = open(errfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 2);
  close(fd);
}

static void worker_setup()
{
#ifdef PBT_MPI
  int argc = 0;
  char** argv = nullptr;
  MPI_Init(&argc, &argv);
#endif
  if(hooks().worker_init) hooks().worker_init();
}

static Shared* mkshared()
{
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) { perror("mmap"); exit(3); }
  memset(p, 0, offsetof(Shared, choices));
  return (Shared*)p;
}

// ---- replay of one choice sequence in a grandchild of an initialised zygote ----
struct Zygote {
  pid_t pid = 0;
  int to = -1, from = -1;
  Shared* sh;
  std::string errf;
  const Target* t;
  double wall;
};
// zygote protocol: parent puts choices in zy.sh->choices/nchoices, writes 1 byte; zygote forks, child runs; zygote returns wait status (int)
static void zygote_start(Zygote& z, const Target& t, double wall)
{
  int a[2], b[2];
  if(pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
  z.sh = mkshared();
  z.errf = tmpdir + "/zy_err_" + std::to_string(getpid());
  z.t = &t;
  z.wall = wall;
  fflush(stdout);
  fflush(stderr);
  z.pid = fork();
  if(z.pid == 0) {
    close(a[1]);
    close(b[0]);
    redirect(z.errf);
    worker_setup();
    char cmd;
    while(read(a[0], &cmd, 1) == 1) {
      if(truncate(z.errf.c_str(), 0)) {}
      pid_t p = fork();
      if(p == 0) {
        std::vector<uint64_t> pre(z.sh->choices, z.sh->choices + z.sh->nchoices);
        Ctx c(z.sh, pre);
        c.verbose = (cmd == 'v');
        if(c.verbose) c.descf = fopen((z.errf + ".desc").c_str(), "w");
        run_case(t, c, z.sh);
        _exit(0);
      }
      int st = 0;
      double t0 = now();
      while(true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if(r == p) break;
        if(now() - t0 > z.wall) { kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(300);
      }
      if(write(b[1], &st, sizeof st) != sizeof st) break;
    }
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  z.to = a[1];
  z.from = b[0];
}
static Outcome zygote_run(Zygote& z, const std::vector<uint64_t>& ch, bool verbose = false)
{
  z.sh->nchoices = ch.size();
  for(size_t i = 0; i < ch.size(); i++) z.sh->choices[i] = ch[i];
  z.sh->state = 1;
  char cmd = verbose ? 'v' : 'r';
  int st = 0;
  Outcome o;
  if(write(z.to, &cmd, 1) != 1 || read(z.from, &st, sizeof st) != sizeof st) {
    o.state = 0;
    o.key = "engine:zygote";
    return o;
  }
  o.choices.assign(z.sh->choices, z.sh->choices + z.sh->nchoices);
  if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && z.sh->state != 1) {
    o.state = z.sh->state;
    if(o.state == 3) { o.key = z.sh->key; o.msg = z.sh->msg; }
  } else {
    o.state = 3;
    classify_crash(st, slurp(z.errf.c_str()), o.key, o.msg);
  }
  return o;
}
static void zygote_stop(Zygote& z)
{
  close(z.to);
  close(z.from);
  int st;
  usleep(1000);
  kill(z.pid, SIGKILL);
  waitpid(z.pid, &st, 0);
  unlink(z.errf.c_str());
  unlink((z.errf + ".desc").c_str());
}

static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
  if(a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

typedef std::function<Outcome(const std::vector<uint64_t>&)> Runner;
static std::vector<uint64_t> shrink(const Runner& once, std::vector<uint64_t> best, const std::string& key, double budget)
{
  double t0 = now();
  auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
    if(now() - t0 > budget) return false;
    Outcome o = once(cand);
    if(o.fail() && o.key == key) {
      std::vector<uint64_t> c = o.choices.empty() ? cand : o.choices;
      if(smaller(c, best)) { best = c; return true; }
    }
    return false;
  };
  bool improved = true;
  while(improved && now() - t0 < budget) {
    improved = false;
    // delete chunks
    for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for(size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if(attempt(c)) improved = true; else i += len;
      }
      if(len == 1) break;
    }
    // zero chunks
    for(size_t len = 8; len >= 1; len /= 2) {
      for(size_t i = 0; i + len <= best.size() && now() - t0 < budget; i += len) {
        bool allz = true;
        for(size_t k = 0; k < len; k++) if(best[i + k]) allz = false;
        if(allz) continue;
        std::vector<uint64_t> c(best);
        for(size_t k = 0; k < len; k++) c[i + k] = 0;
        if(attempt(c)) improved = true;
      }
      if(len == 1) break;
    }
    // reduce values
    for(size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      int it = 0;
      while(lo < hi && it++ < 24 && now() - t0 < budget) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c(best);
        if(i >= c.size()) break;
        c[i] = mid;
        if(attempt(c)) { improved = true; hi = i < best.size() ? best[i] : 0; } else lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s)
{
  std::string o;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static int write_replay(const std::string& path, const std::string& target, const Outcome& o, const std::string& desc)
{
  FILE* f = fopen(path.c_str(), "w");
  if(!f) return 1;
  fprintf(f, "{\"target\":\"%s\",\"key\":\"%s\",\n\"message\":\"%s\",\n\"description\":\"%s\",\n\"choices\":[", jesc(target).c_str(),
          jesc(o.key).c_str(), jesc(o.msg).c_str(), jesc(desc).c_str());
  for(size_t i = 0; i < o.choices.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)o.choices[i]);
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
static bool read_replay(const std::string& path, std::string& target, std::vector<uint64_t>& ch)
{
  std::string s = slurp(path.c_str(), 64u << 20);
  size_t p = s.find("\"target\":\"");
  if(p == std::string::npos) return false;
  size_t e = s.find('"', p + 10);
  target = s.substr(p + 10, e - p - 10);
  p = s.rfind("\"choices\":[");
  if(p == std::string::npos) return false;
  const char* q = s.c_str() + p + 11;
  while(*q && *q != ']') {
    char* en;
    ch.push_back(strtoull(q, &en, 10));
    if(en == q) break;
    q = en;
    if(*q == ',') q++;
  }
  return true;
}

struct FailRec {
  Outcome o;
  uint64_t idx;
};

struct Stats {
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

// per-worker side file: labels, hashes, samples
static void dump_side(const std::string& f, const std::map<std::string, uint64_t>& labels, const std::vector<uint64_t>& hashes,
                      const std::vector<std::string>& samples, const char* mode)
{
  FILE* fp = fopen(f.c_str(), mode);
  if(!fp) return;
  for(auto& l : labels) fprintf(fp, "L\t%llu\t%s\n", (unsigned long long)l.second, l.first.c_str());
  for(auto h : hashes) fprintf(fp, "H\t%llu\n", (unsigned long long)h);
  for(auto& s : samples) fprintf(fp, "S\t%s\n", jesc(s).c_str());
  fclose(fp);
}

struct W {
  pid_t pid = 0;
  Shared* sh = nullptr;
  uint64_t next = 0;
  std::string errf, side;
  double last_change = 0;
  uint64_t last_idx = 0;
  int nfail = 0;
  bool done = false;
};

static void worker_main(W& w, const Target& t, uint64_t seed, uint64_t ncases, int jobs, uint64_t nsamples)
{
  redirect(w.errf);
  worker_setup();
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
  uint64_t th = hash_str(t.name);
  uint64_t since = 0;
  for(uint64_t i = w.next; i < ncases; i += jobs) {
    if(truncate(w.errf.c_str(), 0)) {}
    w.sh->case_idx = i;
    Ctx c(w.sh, mix64(mix64(seed ^ 0xabcdef12345ULL) ^ mix64(th + 0x1234567ULL * (i + 1))));
    c.verbose = samples.size() < nsamples && i / jobs < 40;
    run_case(t, c, w.sh);
    if(w.sh->state == 3) {
      dump_side(w.side, labels, hashes, samples, "a");
      _exit(77);  // parent records failure and restarts after this case
    }
    if(w.sh->state == 4) w.sh->ndiscard = w.sh->ndiscard + 1;
    else {
      w.sh->ncases = w.sh->ncases + 1;
      if(c.is_nontrivial()) {
        w.sh->nnontrivial = w.sh->nnontrivial + 1;
        hashes.push_back(c.choice_hash());
        if(c.verbose) samples.push_back(c.desc.str().substr(0, 1500));
      }
      for(auto& l : c.labels) labels[l]++;
    }
    if(++since >= 200) {
      dump_side(w.side, labels, hashes, samples, "a");
      labels.clear();
      hashes.clear();
      if(!samples.empty()) { nsamples = nsamples > samples.size() ? nsamples - samples.size() : 0; samples.clear(); }
      since = 0;
    }
  }
  dump_side(w.side, labels, hashes, samples, "a");
  w.sh->state = 5;
  _exit(0);
}

static int cmd_run(const Target& t, uint64_t seed, uint64_t ncases, int jobs, const std::string& out, const std::string& rdir,
                   double shrink_budget, double wall_budget)
{
  double t0 = now();
  std::vector<W> ws(jobs);
  auto spawn = [&](int k) {
    W& w = ws[k];
    w.sh->state = 0;
    w.last_change = now();
    fflush(stdout);
    fflush(stderr);
    w.pid = fork();
    if(w.pid == 0) worker_main(w, t, seed, ncases, jobs, 3);
  };
  for(int k = 0; k < jobs; k++) {
    W& w = ws[k];
    w.sh = mkshared();
    w.next = k;
    w.errf = tmpdir + "/w_err_" + std::to_string(getpid()) + "_" + std::to_string(k);
    w.side = tmpdir + "/w_side_" + std::to_string(getpid()) + "_" + std::to_string(k);
    unlink(w.side.c_str());
    if((uint64_t)k < ncases) spawn(k); else w.done = true;
  }
  std::vector<FailRec> fails;
  bool out_of_time = false;
  const double hang = t.cpu_limit * 6 + 60;
  while(true) {
    bool any = false;
    for(int k = 0; k < jobs; k++) {
      W& w = ws[k];
      if(w.done) continue;
      any = true;
      int st;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      if(r == w.pid) {
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.sh->state == 5) { w.done = true; continue; }
        FailRec f;
        f.idx = w.sh->case_idx;
        f.o.state = 3;
        if(w.sh->state == 0) {  // died before any case
          f.o.key = "engine:worker-init";
          f.o.msg = slurp(w.errf.c_str()).substr(0, 2000);
          fails.push_back(f);
          w.done = true;
          continue;
        }
        f.o.choices.assign(w.sh->choices, w.sh->choices + w.sh->nchoices);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77 && w.sh->state == 3) {
          f.o.key = w.sh->key;
          f.o.msg = w.sh->msg;
        } else
          classify_crash(st, slurp(w.errf.c_str()), f.o.key, f.o.msg);
        fails.push_back(f);
        w.sh->ncases = w.sh->ncases + 1;
        w.nfail++;
        w.next = f.idx + jobs;
        if(w.nfail >= 12 || w.next >= ncases || out_of_time) w.done = true;
        else spawn(k);
      } else {
        if(w.sh->case_idx != w.last_idx) { w.last_idx = w.sh->case_idx; w.last_change = now(); }
        else if(now() - w.last_change > hang) kill(w.pid, SIGKILL);
        if(wall_budget > 0 && now() - t0 > wall_budget && !out_of_time) out_of_time = true;
        if(out_of_time) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.done = true; }
      }
    }
    if(!any) break;
    usleep(2000);
  }
  // gather
  uint64_t nc = 0, nnt = 0, nd = 0;
  std::map<std::string, uint64_t> labels;
  std::set<uint64_t> hashes;
  std::vector<std::string> samples;
  for(auto& w : ws) {
    nc += w.sh->ncases;
    nnt += w.sh->nnontrivial;
    nd += w.sh->ndiscard;
    FILE* fp = fopen(w.side.c_str(), "r");
    if(fp) {
      char* line = nullptr;
      size_t cap = 0;
      ssize_t n;
      while((n = getline(&line, &cap, fp)) > 0) {
        if(line[n - 1] == '\n') line[n - 1] = 0;
        if(line[0] == 'L') { char* e; uint64_t v = strtoull(line + 2, &e, 10); labels[e + 1] += v; }
        else if(line[0] == 'H') hashes.insert(strtoull(line + 2, nullptr, 10));
        else if(line[0] == 'S' && samples.size() < 6) samples.push_back(line + 2);
      }
      free(line);
      fclose(fp);
    }
    unlink(w.side.c_str());
    unlink(w.errf.c_str());
  }
  // one representative (shortest) per key, shrink, confirm 3x
  std::map<std::string, FailRec> bykey;
  std::map<std::string, int> keycount;
  bool engine_err = false;
  for(auto& f : fails) {
    if(f.o.key.rfind("engine:", 0) == 0) engine_err = true;
    keycount[f.o.key]++;
    auto it = bykey.find(f.o.key);
    if(it == bykey.end() || smaller(f.o.choices, it->second.o.choices)) bykey[f.o.key] = f;
  }
  std::string fj;
  int nrep = 0;
  for(auto& kv : bykey) {
    FailRec& f = kv.second;
    if(f.o.key.rfind("engine:", 0) == 0) {
      fj += std::string(fj.empty() ? "" : ",") + "{\"key\":\"" + jesc(f.o.key) + "\",\"msg\":\"" + jesc(f.o.msg) + "\",\"confirmed\":0}";
      continue;
    }
    if(nrep >= 8) continue;
    nrep++;
    Zygote z;
    zygote_start(z, t, hang);
    bool slow = f.o.key == "timeout" || f.o.key == "hang";
    // does it reproduce at all?
    int conf = 0;
    for(int r = 0; r < 3; r++) {
      Outcome o = zygote_run(z, f.o.choices);
      if(o.fail() && o.key == f.o.key) conf++;
      if(!o.fail()) break;
    }
    Outcome best = f.o;
    std::string desc;
    if(conf == 3) {
      if(!slow) best.choices = shrink([&](const std::vector<uint64_t>& q) { return zygote_run(z, q); }, f.o.choices, f.o.key, shrink_budget);
      int conf2 = 0;
      for(int r = 0; r < (slow ? 1 : 3); r++) {
        Outcome o = zygote_run(z, best.choices, true);
        if(o.fail() && o.key == f.o.key) { conf2++; best.msg = o.msg; }
      }
      if(!slow && conf2 < 3) best = f.o;
      desc = slurp((z.errf + ".desc").c_str(), 20000);
    }
    zygote_stop(z);
    std::string path = rdir + "/" + t.name + "_" + std::to_string(hash_str(f.o.key) % 1000000) + ".json";
    write_replay(path, t.name, best, desc);
    fj += std::string(fj.empty() ? "" : ",") + "{\"key\":\"" + jesc(best.key) + "\",\"msg\":\"" + jesc(best.msg) + "\",\"count\":" +
          std::to_string(keycount[f.o.key]) + ",\"confirmed\":" + std::to_string(conf) + ",\"case\":" + std::to_string(f.idx) + ",\"replay\":\"" +
          jesc(path) + "\",\"desc\":\"" + jesc(desc.substr(0, 3000)) + "\"}";
  }
  FILE* fo = fopen(out.c_str(), "w");
  if(!fo) { perror(out.c_str()); return 3; }
  fprintf(fo, "{\"target\":\"%s\",\"cases\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":%llu,\"wall\":%.3f,\"out_of_time\":%s,\n",
          t.name.c_str(), (unsigned long long)nc, (unsigned long long)nnt, (unsigned long long)hashes.size(), (unsigned long long)nd, now() - t0,
          out_of_time ? "true" : "false");
  fprintf(fo, "\"labels\":{");
  bool first = true;
  for(auto& l : labels) { fprintf(fo, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(fo, "},\n\"samples\":[");
  for(size_t i = 0; i < samples.size(); i++) fprintf(fo, "%s\"%s\"", i ? "," : "", samples[i].c_str());
  fprintf(fo, "],\n\"failures\":[%s]}\n", fj.c_str());
  fclose(fo);
  return engine_err ? 3 : (bykey.empty() ? 0 : 1);
}
#ifdef PBT_MPI
// ---- multi-rank runs: mpirun starts NRANKS copies of this program, every rank generates the same cases ----
const int NRANKS = 4;
static Shared* map_rec(const std::string& f, bool create)
{
  int fd = open(f.c_str(), create ? O_RDWR | O_CREAT : O_RDWR, 0644);
  if(fd < 0) return nullptr;
  if(create && ftruncate(fd, sizeof(Shared))) { close(fd); return nullptr; }
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  return p == MAP_FAILED ? nullptr : (Shared*)p;
}
static int mpi_worker(const Target& t, uint64_t seed, uint64_t start, uint64_t ncases, uint64_t stride, const std::string& rec, const std::string& one, bool verbose)
{
  MPI_Init(nullptr, nullptr);
  int rank, size;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &size);
  std::string mine = rec + "." + std::to_string(rank), errf = mine + ".err", side = rec + ".side";
  redirect(errf);
  Shared* sh = map_rec(mine, false);
  if(!sh || size != NRANKS) MPI_Abort(MPI_COMM_WORLD, 3);
  g_beat = sh;
  if(hooks().worker_init) hooks().worker_init();
  // the first R ranks form the communicator of a case; the others sit it out
  MPI_Comm comms[NRANKS + 1];
  for(int r = 1; r <= NRANKS; r++) MPI_Comm_split(MPI_COMM_WORLD, rank < r ? 1 : MPI_UNDEFINED, rank, &comms[r]);
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
  std::vector<uint64_t> pre;
  if(!one.empty()) { std::string tn; if(!read_replay(one, tn, pre)) MPI_Abort(MPI_COMM_WORLD, 3); start = 0; ncases = 1; }
  uint64_t th = hash_str("mpi:" + t.name), done = 0;
  for(uint64_t i = start; i < ncases; i += stride, done++) {
    if(truncate(errf.c_str(), 0)) {}
    sh->case_idx = i;
    Ctx c = one.empty() ? Ctx(sh, mix64(mix64(seed ^ 0xabcdef12345ULL) ^ mix64(th + 0x1234567ULL * (i + 1)))) : Ctx(sh, pre);
    c.verbose = rank == 0 && (verbose || samples.size() < 3);
    if(verbose && rank == 0) c.descf = fopen((rec + ".desc").c_str(), "w");
    int R = 2 + (int)c.draw(NRANKS - 2);
    c << "ranks=" << R << " ";
    if(rank >= R) { sh->state = 2; continue; }
    if(hooks().set_env) hooks().set_env(&comms[R], rank, R);
    run_case(t, c, sh);
    if(sh->state == 3) { usleep(20000); MPI_Abort(MPI_COMM_WORLD, 77); }
    // every rank ends the case, with the same choices made
    sh->state = 1;
    long mm[2] = {(long)sh->nchoices, -(long)sh->nchoices}, rr[2];
    MPI_Allreduce(mm, rr, 2, MPI_LONG, MPI_MAX, comms[R]);
    if(rr[0] != -rr[1]) { snprintf(sh->key, sizeof sh->key, "mpi:ranks-diverged"); snprintf(sh->msg, sizeof sh->msg, "the ranks went through different histories"); sh->state = 3; MPI_Abort(MPI_COMM_WORLD, 77); }
    sh->state = 2;
    if(rank == 0) {
      sh->ncases = sh->ncases + 1;
      c.label("ranks" + std::to_string(R));
      if(c.is_nontrivial()) { sh->nnontrivial = sh->nnontrivial + 1; hashes.push_back(c.choice_hash()); if(c.verbose) samples.push_back(c.desc.str().substr(0, 1500)); }
      for(auto& l : c.labels) labels[l]++;
      if(done % 50 == 49) { dump_side(side, labels, hashes, samples, "a"); labels.clear(); hashes.clear(); if(!samples.empty()) samples.assign(3, ""); }
    }
  }
  if(rank == 0) { samples.erase(std::remove(samples.begin(), samples.end(), std::string()), samples.end()); dump_side(side, labels, hashes, samples, "a"); }
  MPI_Barrier(MPI_COMM_WORLD);
  sh->state = 5;
  MPI_Finalize();
  return 0;
}

struct Group {
  pid_t pid = 0;
  std::string rec;
  Shared* sh[NRANKS];
  uint64_t next = 0, last_sum = 0, last_beat = 0;
  double last_change = 0, last_case = 0;
  int nfail = 0;
  bool done = false, ended_hung = false;
};
static void group_init(Group& g, const std::string& rec)
{
  g.rec = rec;
  for(int r = 0; r < NRANKS; r++) {
    std::string f = rec + "." + std::to_string(r);
    unlink(f.c_str());
    g.sh[r] = map_rec(f, true);
    if(!g.sh[r]) { perror(f.c_str()); exit(3); }
  }
  unlink((rec + ".side").c_str());
}
static void group_fini(Group& g)
{
  for(int r = 0; r < NRANKS; r++) { std::string f = g.rec + "." + std::to_string(r); munmap(g.sh[r], sizeof(Shared)); unlink(f.c_str()); unlink((f + ".err").c_str()); }
  unlink((g.rec + ".side").c_str());
  unlink((g.rec + ".out").c_str());
}
static std::string self()
{
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  return n > 0 ? std::string(b, n) : "";
}
static void group_start(Group& g, std::vector<std::string> args)
{
  for(int r = 0; r < NRANKS; r++) { g.sh[r]->state = 0; unlink((g.rec + "." + std::to_string(r) + ".err").c_str()); }
  g.last_change = g.last_case = now();
  g.last_sum = g.last_beat = 0;
  g.ended_hung = false;
  std::vector<std::string> a = {"mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", std::to_string(NRANKS), self(), "mpi-worker"};
  a.insert(a.end(), args.begin(), args.end());
  fflush(stdout);
  fflush(stderr);
  g.pid = fork();
  if(g.pid == 0) {
    setpgid(0, 0);
    int fd = open((g.rec + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    int z = open("/dev/null", O_RDONLY);
    dup2(z, 0);
    std::vector<char*> v;
    for(auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    execvp("mpirun", v.data());
    _exit(127);
  }
}
static void group_kill(Group& g)
{
  kill(g.pid, SIGTERM);
  int st;
  for(int i = 0; i < 500; i++) { if(waitpid(g.pid, &st, WNOHANG) == g.pid) return; usleep(10000); }
  kill(-g.pid, SIGKILL);
  kill(g.pid, SIGKILL);
  waitpid(g.pid, &st, 0);
}
// 0 still running, 1 ended; a group without progress is killed
static int group_poll(Group& g, double hang, int& st)
{
  if(waitpid(g.pid, &st, WNOHANG) == g.pid) return 1;
  uint64_t s = 0, b = 0;
  for(int r = 0; r < NRANKS; r++) { s += g.sh[r]->case_idx * 8 + g.sh[r]->state; b += g.sh[r]->beat; }
  if(s != g.last_sum) { g.last_sum = s; g.last_case = now(); }
  if(s + b != g.last_beat) { g.last_beat = s + b; g.last_change = now(); }
  else if(now() - g.last_change > hang || now() - g.last_case > 5 * hang) { g.ended_hung = true; group_kill(g); st = 0; return 1; }
  return 0;
}
static bool group_ok(const Group& g) { for(int r = 0; r < NRANKS; r++) if(g.sh[r]->state != 5) return false; return !g.ended_hung; }
static Outcome group_outcome(const Group& g, uint64_t& idx)
{
  Outcome o;
  o.state = 3;
  int who = -1;
  for(int r = NRANKS - 1; r >= 0; r--) if(g.sh[r]->state == 3) who = r;
  if(who >= 0) { o.key = g.sh[who]->key; o.msg = "[rank " + std::to_string(who) + "] " + g.sh[who]->msg; }
  else if(g.ended_hung) {
    o.key = "mpi:hang";
    o.msg = "the ranks made no progress (deadlock or non-termination); (case, state) by rank:";
    for(int r = 0; r < NRANKS; r++) o.msg += " (" + std::to_string(g.sh[r]->case_idx) + ", " + std::to_string(g.sh[r]->state) + ")";
    for(int r = 0; r < NRANKS; r++) if(g.sh[r]->state == 1 && (who < 0 || g.sh[r]->case_idx < g.sh[who]->case_idx)) who = r;
  } else {
    for(int r = NRANKS - 1; r >= 0; r--) {
      std::string e = slurp((g.rec + "." + std::to_string(r) + ".err").c_str());
      if(e.find("Assertion `") != std::string::npos || e.find("ERROR: AddressSanitizer") != std::string::npos) { who = r; classify_crash(0, e, o.key, o.msg); }
    }
    if(who < 0) {
      for(int r = 0; r < NRANKS; r++) if(g.sh[r]->state == 1) { who = r; break; }
      std::string e = slurp((g.rec + ".out").c_str());
      for(int r = 0; r < NRANKS; r++) e += slurp((g.rec + "." + std::to_string(r) + ".err").c_str());
      size_t p = e.find("on signal ");
      if(who < 0) o.key = "engine:mpirun";
      else if(p != std::string::npos) { int sg = atoi(e.c_str() + p + 10); o.key = sg == SIGPROF ? "timeout" : "signal:" + std::to_string(sg); }
      else o.key = e.find("MPI_ERR") != std::string::npos ? "mpi:error" : "exit";
      o.msg = e.substr(0, 3000);
    }
  }
  if(getenv("PBT_STDERR")) fprintf(stderr, "%s\n", slurp((g.rec + ".out").c_str(), 8000000).c_str());
  if(getenv("PBT_STDERR")) for(int r = 0; r < NRANKS; r++) fprintf(stderr, "--- rank %d\n%s\n", r, slurp((g.rec + "." + std::to_string(r) + ".err").c_str(), 4000000).c_str());
  if(who < 0) who = 0;
  idx = g.sh[who]->case_idx;
  o.choices.assign(g.sh[who]->choices, g.sh[who]->choices + std::min(g.sh[who]->nchoices + 0u, MAXCHOICES));
  return o;
}
static Outcome mpi_once(const Target& t, const std::vector<uint64_t>& ch, double hang, bool verbose, std::string* desc)
{
  Group g;
  group_init(g, tmpdir + "/mpi_one_" + std::to_string(getpid()));
  Outcome in;
  in.choices = ch;
  std::string f = g.rec + ".in";
  write_replay(f, t.name, in, "");
  std::vector<std::string> a = {"--target", t.name, "--rec", g.rec, "--one", f};
  if(verbose) a.push_back("--verbose");
  unlink((g.rec + ".desc").c_str());
  group_start(g, a);
  int st;
  while(!group_poll(g, hang, st)) usleep(2000);
  Outcome o;
  uint64_t idx;
  if(group_ok(g)) { o.state = 2; o.choices.assign(g.sh[0]->choices, g.sh[0]->choices + g.sh[0]->nchoices); }
  else o = group_outcome(g, idx);
  if(desc) *desc = slurp((g.rec + ".desc").c_str(), 20000);
  unlink((g.rec + ".desc").c_str());
  unlink(f.c_str());
  group_fini(g);
  return o;
}
static std::string gather_side(const std::string& f, std::map<std::string, uint64_t>& labels, std::set<uint64_t>& hashes, std::vector<std::string>& samples)
{
  std::istringstream in(slurp(f.c_str(), 1u << 30));
  std::string l;
  while(std::getline(in, l)) {
    if(l.size() < 3) continue;
    if(l[0] == 'L') { char* e; uint64_t v = strtoull(l.c_str() + 2, &e, 10); labels[e + 1] += v; }
    else if(l[0] == 'H') hashes.insert(strtoull(l.c_str() + 2, nullptr, 10));
    else if(l[0] == 'S' && samples.size() < 6) samples.push_back(l.substr(2));
  }
  return "";
}
static int cmd_mpi_run(const Target& t, uint64_t seed, uint64_t ncases, int groups, const std::string& out, const std::string& rdir, double shrink_budget)
{
  double t0 = now();
  const double hang = 60;
  std::vector<Group> gs(groups);
  std::vector<FailRec> fails;
  auto start = [&](int k) {
    group_start(gs[k], {"--target", t.name, "--seed", std::to_string(seed), "--cases", std::to_string(ncases), "--start", std::to_string(gs[k].next),
                        "--jobs", std::to_string(groups), "--rec", gs[k].rec});
  };
  for(int k = 0; k < groups; k++) {
    group_init(gs[k], tmpdir + "/mpi_" + std::to_string(getpid()) + "_" + std::to_string(k));
    gs[k].next = k;
    if((uint64_t)k < ncases) start(k); else gs[k].done = true;
  }
  while(true) {
    bool any = false;
    for(int k = 0; k < groups; k++) {
      Group& g = gs[k];
      if(g.done) continue;
      any = true;
      int st;
      if(!group_poll(g, hang, st)) continue;
      if(group_ok(g)) { g.done = true; continue; }
      FailRec f;
      f.o = group_outcome(g, f.idx);
      fails.push_back(f);
      g.next = f.idx + groups;
      if(++g.nfail >= 4 || f.o.key.rfind("engine:", 0) == 0 || g.next >= ncases) g.done = true;
      else start(k);
    }
    if(!any) break;
    usleep(3000);
  }
  uint64_t nc = 0, nnt = 0;
  std::map<std::string, uint64_t> labels;
  std::set<uint64_t> hashes;
  std::vector<std::string> samples;
  for(auto& g : gs) { nc += g.sh[0]->ncases; nnt += g.sh[0]->nnontrivial; gather_side(g.rec + ".side", labels, hashes, samples); group_fini(g); }
  nc += fails.size();
  std::map<std::string, FailRec> bykey;
  std::map<std::string, int> cnt;
  for(auto& f : fails) { cnt[f.o.key]++; auto it = bykey.find(f.o.key); if(it == bykey.end() || smaller(f.o.choices, it->second.o.choices)) bykey[f.o.key] = f; }
  std::string fj;
  int nrep = 0;
  bool engine_err = false;
  for(auto& kv : bykey) {
    FailRec& f = kv.second;
    if(f.o.key.rfind("engine:", 0) == 0) { engine_err = true; fj += std::string(fj.empty() ? "" : ",") + "{\"key\":\"" + jesc(f.o.key) + "\",\"msg\":\"" + jesc(f.o.msg) + "\",\"confirmed\":0}"; continue; }
    if(nrep++ >= 3) continue;
    bool slow = f.o.key == "timeout" || f.o.key == "mpi:hang";
    int conf = 0;
    std::string desc;
    Outcome best = f.o;
    for(int r = 0; r < 3; r++) { Outcome o = mpi_once(t, f.o.choices, hang, true, &desc); if(o.fail()) conf++; else break; }
    if(conf == 3 && !slow) {
      best.choices = shrink([&](const std::vector<uint64_t>& q) { return mpi_once(t, q, 20, false, nullptr); }, f.o.choices, f.o.key, shrink_budget);
      std::string d2;
      Outcome o = mpi_once(t, best.choices, hang, true, &d2);
      if(o.fail() && o.key == f.o.key) { best.msg = o.msg; desc = d2; } else best = f.o;
    }
    std::string path = rdir + "/mpi_" + t.name + "_" + std::to_string(hash_str(f.o.key) % 1000000) + ".json";
    write_replay(path, "mpi:" + t.name, best, desc);
    fj += std::string(fj.empty() ? "" : ",") + "{\"key\":\"" + jesc(best.key) + "\",\"msg\":\"" + jesc(best.msg) + "\",\"count\":" + std::to_string(cnt[f.o.key]) +
          ",\"confirmed\":" + std::to_string(conf) + ",\"case\":" + std::to_string(f.idx) + ",\"replay\":\"" + jesc(path) + "\",\"desc\":\"" + jesc(desc.substr(0, 3000)) + "\"}";
  }
  FILE* fo = fopen(out.c_str(), "w");
  if(!fo) { perror(out.c_str()); return 3; }
  fprintf(fo, "{\"target\":\"mpi:%s\",\"cases\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"discarded\":0,\"wall\":%.3f,\"out_of_time\":false,\n\"labels\":{",
          t.name.c_str(), (unsigned long long)nc, (unsigned long long)nnt, (unsigned long long)hashes.size(), now() - t0);
  bool first = true;
  for(auto& l : labels) { fprintf(fo, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
  fprintf(fo, "},\n\"samples\":[");
  for(size_t i = 0; i < samples.size(); i++) fprintf(fo, "%s\"%s\"", i ? "," : "", samples[i].c_str());
  fprintf(fo, "],\n\"failures\":[%s]}\n", fj.c_str());
  fclose(fo);
  return engine_err ? 3 : (bykey.empty() ? 0 : 1);
}
#endif
}  // namespace pbt

using namespace pbt;
int main(int argc, char** argv)
{
  std::string mode = argc > 1 ? argv[1] : "", target, out = "/dev/stdout", rdir = "/tmp", file;
  uint64_t seed = 1, cases = 100;
  int jobs = 8;
  double sb = 20, wb = 0;
  std::string rec, one;
  uint64_t start = 0;
  bool verbose = false;
  if(getenv("PBT_TMP")) tmpdir = getenv("PBT_TMP");
  for(int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--target") target = nx();
    else if(a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if(a == "--cases") cases = strtoull(nx().c_str(), nullptr, 10);
    else if(a == "--jobs") jobs = atoi(nx().c_str());
    else if(a == "--out") out = nx();
    else if(a == "--replaydir") rdir = nx();
    else if(a == "--shrink") sb = atof(nx().c_str());
    else if(a == "--rec") rec = nx();
    else if(a == "--one") one = nx();
    else if(a == "--start") start = strtoull(nx().c_str(), nullptr, 10);
    else if(a == "--verbose") verbose = true;
    else if(a == "--wall") wb = atof(nx().c_str());
    else file = a;
  }
  if(mode == "list") {
    for(auto& t : targets()) printf("%s\n", t.name.c_str());
    return 0;
  }
#ifdef PBT_MPI
  if(mode == "mpi-worker" || mode == "mpi-run") {
    for(auto& t : targets())
      if(t.name == target) return mode == "mpi-run" ? cmd_mpi_run(t, seed, cases, jobs, out, rdir, sb) : mpi_worker(t, seed, start, cases, jobs, rec, one, verbose);
    fprintf(stderr, "no target %s\n", target.c_str());
    return 3;
  }
#endif
  if(mode == "run") {
    for(auto& t : targets())
      if(t.name == target) return cmd_run(t, seed, cases, jobs, out, rdir, sb, wb);
    fprintf(stderr, "no target %s\n", target.c_str());
    return 3;
  }
  if(mode == "replay") {
    std::vector<uint64_t> ch;
    if(!read_replay(file, target, ch)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
#ifdef PBT_MPI
    if(target.rfind("mpi:", 0) == 0) {
      for(auto& t : targets())
        if("mpi:" + t.name == target) {
          std::string d;
          Outcome o = mpi_once(t, ch, 60, true, &d);
          printf("state %s\nkey %s\nmsg %s\ncase: %s\n", o.fail() ? "FAIL" : o.state == 2 ? "ok" : "other", o.key.c_str(), o.msg.c_str(), d.c_str());
          return o.fail() ? 1 : 0;
        }
    }
#endif
    for(auto& t : targets())
      if(t.name == target) {
        Zygote z;
        zygote_start(z, t, 600);
        Outcome o = zygote_run(z, ch, true);
        printf("state %s\nkey %s\nmsg %s\ncase: %s\n", o.fail() ? "FAIL" : o.state == 2 ? "ok" : "other", o.key.c_str(), o.msg.c_str(),
               slurp((z.errf + ".desc").c_str(), 20000).c_str());
        if(getenv("PBT_STDERR")) printf("stderr:\n%s\n", slurp(z.errf.c_str(), 100000).c_str());
        zygote_stop(z);
        return o.fail() ? 1 : 0;
      }
    fprintf(stderr, "no target %s\n", target.c_str());
    return 3;
  }
  fprintf(stderr, "usage\n");
  return 3;
}
