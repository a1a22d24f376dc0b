#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <fstream>
#include <ctime>
#include <poll.h>

namespace eng {

struct Slot {
  std::atomic<long> cur;       // case being run (-1 none)
  std::atomic<int> done;
  std::atomic<int> failed;     // 1 = property failure recorded
  std::atomic<long> failcase;
  char msg[4096];
};
struct Shared { std::atomic<int> stop; Slot slot[64]; };

static uint64_t hs(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
static uint64_t case_seed(const Prop& p, uint64_t seed, long i) { return mix(mix(hs(p.id)) ^ mix(seed * 0x9E37 + 77) ^ mix((uint64_t)i + 0xABCDEF)); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static void arm(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static std::string status_text(int st) {
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) return "did not terminate within the CPU limit (hang)";
    return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  }
  return fmt("process exited with status %d (sanitizer report or exit() from library code)", WEXITSTATUS(st));
}
static bool status_is_hang(int st) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF; }
static bool status_is_kill(int st) { return WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL; }

// Run one case in this process. returns 0 ok, 1 fail, 2 discard
static int run_case(const Prop& p, Ctx& c, std::string& msg) {
  srand(1);
  try { p.run(c); return 0; }
  catch (const Fail& f) { msg = f.what(); return 1; }
  catch (const Discard&) { return 2; }
  catch (const std::exception& e) { msg = std::string("harness exception: ") + e.what(); return 3; }
}

static bool thorough_g = false;

uint64_t* Src::mirror = nullptr; size_t Src::mirror_cap = 0;
static uint64_t* g_mir; static const size_t g_mircap = 1 << 20;

struct ChildOut { int verdict; std::string msg, note; std::vector<uint64_t> rec; };
// Run a choice sequence (or a seed) in a fresh child.
static ChildOut run_isolated(const Prop& p, const Src& src, bool want_note, bool show_stderr) {
  ChildOut o; o.verdict = 0;
  int fd[2]; if (pipe(fd)) { o.verdict = 3; return o; }
  if (!g_mir) g_mir = (uint64_t*)mmap(nullptr, g_mircap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_mir[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (!show_stderr) { int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 2); } }
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 1);
    signal(SIGPROF, SIG_DFL);
    arm(p.cpu_limit);
    Src::mirror = g_mir; Src::mirror_cap = g_mircap;
    Ctx c(src); c.thorough = thorough_g; c.want_note = want_note;
    std::string msg; int r = run_case(p, c, msg);
    std::ostringstream os;
    os << r << "\n" << c.s.rec.size() << "\n";
    for (auto v : c.s.rec) os << v << " ";
    os << "\n" << msg.size() << "\n" << msg << "\n" << c.note.str();
    std::string s = os.str(); size_t off = 0;
    while (off < s.size()) { ssize_t k = write(fd[1], s.data() + off, s.size() - off); if (k <= 0) break; off += k; }
    close(fd[1]);
    _exit(77);
  }
  close(fd[1]);
  std::string buf; char b[65536]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) buf.append(b, k);
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && !buf.empty()) {
    std::istringstream is(buf); size_t n, ml; is >> o.verdict >> n; o.rec.resize(n);
    for (auto& v : o.rec) is >> v;
    is >> ml; is.get(); o.msg.resize(ml); is.read(&o.msg[0], ml); is.get();
    std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); o.note = rest;
  } else if (status_is_kill(st)) { o.verdict = 4; o.msg = "killed (memory?)"; }
  else if (status_is_hang(st) && !p.hang_is_violation) { o.verdict = 4; o.msg = "slow"; }
  else { o.verdict = 1; o.msg = status_text(st); o.rec.assign(g_mir + 1, g_mir + 1 + g_mir[0]); }
  return o;
}

static void write_file(const std::string& path, const std::string& s) { std::ofstream f(path); f << s; }

static std::string seqstr(const std::vector<uint64_t>& v) { std::ostringstream o; for (auto x : v) o << x << " "; return o.str(); }

bool listed(const std::string& prop, const std::string& key) {
  const char* p = getenv("ECOS_KNOWN"); if (!p) return false; std::ifstream f(p); std::string l, want = "finding: property=" + prop + " " + key + " "; while (std::getline(f, l)) if (l.compare(0, want.size(), want) == 0) return true; return false;
}
int engine_main(int argc, char** argv, const Prop& p) {
  std::string tier = "quick", evid, repdir = ".", replay, root = ".", tag;
  uint64_t seed = 1; long cases = -1; int jobs = 8; long only = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") tier = nx(); else if (a == "--evidence") evid = nx();
    else if (a == "--replays") repdir = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = atol(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--case") only = atol(nx().c_str());
    else if (a == "--tag") tag = nx();
  }
  thorough_g = tier == "thorough";
  double t0 = now();
  if (jobs < 1) jobs = 1;
  if (jobs > 64) jobs = 64;

  if (!replay.empty()) {     // regression replay of one saved case
    std::ifstream f(replay); std::string line; std::vector<uint64_t> seq; bool have = false; bool isfixed = false;
    std::string hist;
    while (std::getline(f, line)) {
      if (line.rfind("choices:", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t v; while (is >> v) seq.push_back(v); have = true; }
      if (line.rfind("tier: thorough", 0) == 0) thorough_g = true;
      if (line.rfind("fixed:", 0) == 0) isfixed = true;
      if (line.rfind("seed:", 0) == 0 && !have) { }
      if (line.rfind("history:", 0) == 0) hist = line.substr(8);
    }
    if (isfixed) { Ctx c{Src(seq)}; try { p.fixed(c); } catch (const Fail& e) { printf("FAIL %s\n", e.what()); return 1; } printf("ok\n"); return 0; }
    if (!hist.empty()) {
      long w, nj, upto; uint64_t sd; std::istringstream is(hist); is >> sd >> w >> nj >> upto;
      int bad = 0; std::string m;
      for (long i = w; i <= upto; i += nj) { Ctx c(Src(case_seed(p, sd, i))); c.thorough = thorough_g; bad = run_case(p, c, m) == 1; if (bad) { printf("case %ld: %s\n", i, m.c_str()); break; } }
      printf(bad ? "FAIL\n" : "ok\n"); return bad;
    }
    (void)have;
    ChildOut o = run_isolated(p, Src(seq), true, true);
    printf("%s\n%s\n%s\n", o.verdict == 1 ? "FAIL" : "ok", o.msg.c_str(), o.note.c_str());
    return o.verdict == 1;
  }
  if (only >= 0) {
    ChildOut o = run_isolated(p, Src(case_seed(p, seed, only)), true, true);
    printf("verdict %d\n%s\n%s\n", o.verdict, o.msg.c_str(), o.note.c_str());
    return o.verdict == 1;
  }

  long N = cases >= 0 ? cases : (tier == "thorough" ? p.thorough : p.quick);
  std::string tmpdir = repdir + "/tmp." + std::to_string(getpid());
  mkdir(repdir.c_str(), 0755); mkdir(tmpdir.c_str(), 0755);

  // deterministic regression cases first
  std::vector<std::string> knowns; std::string fixedfail; uint64_t fixed_evals = 0;
  if (p.fixed) {
    int fd[2]; if (pipe(fd)) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      arm(p.cpu_limit * 4);
      Ctx c{Src(std::vector<uint64_t>())}; std::string out;
      try { p.fixed(c); out = "O"; } catch (const Fail& e) { out = std::string("F") + e.what(); } catch (const Discard&) { out = "O"; }
      out = std::to_string(c.subevals) + "\n" + out + "\x01" + c.known;
      if (write(fd[1], out.data(), out.size()) < 0) _exit(1);
      _exit(77);
    }
    close(fd[1]); std::string buf; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) buf.append(b, k);
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) fixedfail = "regression case: " + status_text(st);
    else {
      size_t nl = buf.find('\n'); fixed_evals = strtoull(buf.c_str(), 0, 10); buf = buf.substr(nl + 1);
      size_t q = buf.find('\x01'); std::string kn = buf.substr(q + 1); buf.resize(q);
      if (buf[0] == 'F') fixedfail = buf.substr(1);
      std::istringstream is(kn); std::string l; while (std::getline(is, l)) if (!l.empty()) knowns.push_back(l);
    }
  }

  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof *sh);
  std::vector<pid_t> pids(jobs);
  fflush(stdout); fflush(stderr);
  if (!fixedfail.empty()) sh->stop = 1;
  for (int w = 0; w < jobs; w++) {
    sh->slot[w].cur = -1;
    pid_t pid = fork();
    if (pid == 0) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      std::string ef = tmpdir + "/err." + std::to_string(w);
      int e = open(ef.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644); if (e >= 0) dup2(e, 2);
      signal(SIGPROF, SIG_DFL);
      Slot& sl = sh->slot[w];
      std::map<std::string, uint64_t> lab; std::set<uint64_t> nt; uint64_t evals = 0, disc = 0, ntc = 0, sub = 0;
      std::vector<std::string> samples; std::set<std::string> known;
      for (long i = w; i < N; i += jobs) {
        if (sh->stop.load()) break;
        sl.cur = i; arm(p.cpu_limit);
        Ctx c(Src(case_seed(p, seed, i))); c.thorough = thorough_g; c.want_note = (i < 4 * jobs || samples.empty());
        std::string msg; int r = run_case(p, c, msg);
        evals++; sub += c.subevals;
        if (r == 2) disc++;
        for (auto& kv : c.labels) lab[kv.first] += kv.second;
        if (!c.known.empty()) known.insert(c.known);
        if (c.nontriv && r == 0) { ntc++; if (nt.size() < 4000000) nt.insert(c.nthash); if (samples.size() < 2 && c.want_note && c.note.tellp() > 0) samples.push_back(fmt("case %ld: ", i) + c.note.str().substr(0, 1800)); }
        if (r == 1 || r == 3) {
          sl.failcase = i; strncpy(sl.msg, msg.c_str(), sizeof sl.msg - 1); sl.failed = r; sh->stop = 1; break;
        }
      }
      arm(0);
      std::ofstream f(tmpdir + "/w." + std::to_string(w), std::ios::binary);
      f << evals << " " << disc << " " << ntc << " " << sub << " " << lab.size() << " " << nt.size() << " " << samples.size() << " " << known.size() << "\n";
      for (auto& kv : lab) f << kv.second << " " << kv.first << "\n";
      for (auto v : nt) f.write((char*)&v, 8);
      for (auto& s : samples) { f << s.size() << "\n" << s << "\n"; }
      for (auto& s : known) f << s << "\n";
      f.close();
      sl.cur = -1; sl.done = 1; _exit(0);
    }
    pids[w] = pid;
  }
  struct Bad { long idx; int w; std::string msg; int kind; };  // kind 0 in-process, 1 crash, 2 hang/kill inconclusive, 3 harness
  std::vector<Bad> bad; long inconclusive = 0;
  for (int w = 0; w < jobs; w++) {
    int st; 
    while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {}
    Slot& sl = sh->slot[w];
    if (sl.failed) bad.push_back({sl.failcase, w, sl.msg, sl.failed == 3 ? 3 : 0});
    else if (!sl.done) {
      sh->stop = 1;
      if (status_is_kill(st)) { inconclusive++; bad.push_back({sl.cur, w, "worker killed", 2}); }
      else if (status_is_hang(st) && !p.hang_is_violation) { bad.push_back({sl.cur, w, "slow", 2}); }
      else bad.push_back({sl.cur, w, status_text(st), 1});
    }
  }
  // merge
  std::map<std::string, uint64_t> lab; std::set<uint64_t> nt; uint64_t evals = 0, disc = 0, ntc = 0, sub = 0; std::vector<std::string> samples; std::set<std::string> known;
  for (int w = 0; w < jobs; w++) {
    std::ifstream f(tmpdir + "/w." + std::to_string(w), std::ios::binary); if (!f) continue;
    uint64_t e, d, a, u; size_t nl, nn, ns, nk; f >> e >> d >> a >> u >> nl >> nn >> ns >> nk; if (!f) continue; f.get();
    evals += e; disc += d; ntc += a; sub += u;
    for (size_t i = 0; i < nl; i++) { uint64_t v; f >> v; f.get(); std::string k; std::getline(f, k); lab[k] += v; }
    for (size_t i = 0; i < nn; i++) { uint64_t v; f.read((char*)&v, 8); nt.insert(v); }
    for (size_t i = 0; i < ns; i++) { size_t n; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], n); f.get(); if (samples.size() < 4) samples.push_back(s); }
    for (size_t i = 0; i < nk; i++) { std::string s; std::getline(f, s); known.insert(s); }
  }
  int rc = 0; int nviol = 0; std::vector<std::string> extra;
  auto emit = [&](const std::string& path, const std::string& msg) {
    printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
    printf("  %s\n", msg.substr(0, 1500).c_str()); rc = 1; nviol++;
  };
  if (!fixedfail.empty()) {
    std::string path = repdir + "/" + p.id + "-fixed.replay";
    write_file(path, std::string("property: ") + p.id + "\nfixed: regression case\nmessage: " + fixedfail + "\n");
    emit(path, fixedfail);
  }
  std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) { return a.idx < b.idx; });
  double shrink_deadline = now() + (thorough_g ? 180 : 60);
  for (auto& b : bad) {
    if (rc == 1) break;
    if (b.kind == 2) { extra.push_back(fmt("inconclusive: case %ld %s", b.idx, b.msg.c_str())); continue; }
    if (b.kind == 3) { fprintf(stderr, "harness error in case %ld: %s\n", b.idx, b.msg.c_str()); rc = rc == 1 ? 1 : 2; continue; }
   
    uint64_t cs = case_seed(p, seed, b.idx);
    std::vector<uint64_t> seq; std::string msg = b.msg; std::string note;
    ChildOut o = run_isolated(p, Src(cs), true, false);
    if (o.verdict == 1) { seq = o.rec; msg = o.msg; note = o.note;
    } else {
      // did not reproduce alone: does the worker's history reproduce it?
      std::string path = repdir + "/" + p.id + "-history.replay"; int hits = 0;
      for (int t = 0; t < 3; t++) {
        pid_t pid = fork();
        if (pid == 0) {
          int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
          for (long i = b.w; i <= b.idx; i += jobs) { arm(p.cpu_limit); Ctx c(Src(case_seed(p, seed, i))); c.thorough = thorough_g; std::string m; if (run_case(p, c, m) == 1) _exit(1); }
          _exit(0);
        }
        int st; waitpid(pid, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) hits++;
      }
      if (hits == 3) {
        write_file(path, fmt("property: %s\ntier: %s\nhistory: %llu %d %d %ld\n", p.id, tier.c_str(), (unsigned long long)seed, b.w, jobs, b.idx) + "message: " + msg + "\n");
        emit(path, "(depends on the preceding cases of the same process) " + msg);
      } else extra.push_back(fmt("not reproduced: case %ld: %s", b.idx, b.msg.c_str()));
      continue;
    }
    // shrink
    long attempts = 0;
    auto fails = [&](const std::vector<uint64_t>& v, ChildOut& out) { attempts++; out = run_isolated(p, Src(v), false, false); return out.verdict == 1; };
    ChildOut tmp; std::vector<uint64_t> best = seq;
    if (fails(best, tmp)) {
      bool progress = true;
      auto ok = [&]() { return attempts < 1500 && now() < shrink_deadline; };
      while (progress && ok()) {
        progress = false;
        for (size_t blk = best.size() / 2; blk >= 1 && ok(); blk /= 2) {
          for (size_t i = 0; i + blk <= best.size() && ok();) {
            std::vector<uint64_t> t(best.begin(), best.begin() + i); t.insert(t.end(), best.begin() + i + blk, best.end());
            ChildOut oo; if (fails(t, oo)) { best = (oo.rec.empty() || oo.rec.size() > t.size()) ? t : oo.rec; progress = true; } else {
              bool allz = true; for (size_t k = i; k < i + blk; k++) if (best[k]) allz = false;
              if (!allz) { std::vector<uint64_t> z = best; for (size_t k = i; k < i + blk; k++) z[k] = 0; ChildOut o2; if (fails(z, o2)) { best = z; progress = true; } }
              i += blk; }
          }
        }
        for (size_t i = 0; i < best.size() && ok(); i++) {
          uint64_t lo = 0, hi = best[i]; int guard = 0;
          while (lo < hi && ok() && guard++ < 12) { uint64_t mid = lo + (hi - lo) / 2; auto z = best; z[i] = mid; ChildOut o2; if (fails(z, o2)) { best = z; hi = mid; progress = true; } else lo = mid + 1; }
        }
      }
    }
    int hits = 0; ChildOut fin;
    for (int t = 0; t < 3; t++) { fin = run_isolated(p, Src(best), true, false); if (fin.verdict == 1) hits++; }
    if (hits < 3) { best = seq; hits = 0; for (int t = 0; t < 3; t++) { fin = run_isolated(p, Src(best), true, false); if (fin.verdict == 1) hits++; } }
    if (hits < 3) { hits = 0; for (int t = 0; t < 3; t++) { ChildOut f2 = run_isolated(p, Src(cs), true, false); if (f2.verdict == 1) { hits++; fin = f2; } } if (hits == 3 && !fin.rec.empty()) best = fin.rec; }
    if (hits == 3) {
      Hash h; for (auto v : best) h.add(v);
      std::string path = repdir + "/" + p.id + "-" + fmt("%08llx", (unsigned long long)(h.h & 0xffffffffull)) + ".replay";
      write_file(path, std::string("property: ") + p.id + "\ntier: " + tier + "\n" + (tag.empty() ? "" : "flavour: " + tag + "\n") + fmt("from: seed %llu case %ld, %ld shrink attempts\n", (unsigned long long)seed, b.idx, attempts) + "message: " + fin.msg + "\nchoices: " + seqstr(best) + "\ncase:\n" + fin.note + "\n");
      emit(path, fin.msg);
    } else extra.push_back(fmt("not reproduced 3x: case %ld: %s", b.idx, b.msg.c_str()));
  }
  for (auto& k : known) knowns.push_back(k);
  std::sort(knowns.begin(), knowns.end()); knowns.erase(std::unique(knowns.begin(), knowns.end()), knowns.end());
  for (auto& k : knowns) printf("KNOWN-FINDING: property=%s %s\n", p.id, k.c_str());
  double wall = now() - t0;
  // sanitizer logs of crashed workers help diagnosis
  for (int w = 0; w < jobs; w++) {
    std::string ef = tmpdir + "/err." + std::to_string(w);
    if (rc == 1) { std::ifstream f(ef); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); if (!s.empty() && (s.find("ERROR") != std::string::npos || s.find("runtime error") != std::string::npos || s.find("ssert") != std::string::npos)) { printf("  worker log: %s\n", s.substr(0, 1200).c_str()); break; } }
  }
  for (int w = 0; w < jobs; w++) { unlink((tmpdir + "/err." + std::to_string(w)).c_str()); unlink((tmpdir + "/w." + std::to_string(w)).c_str()); }
  rmdir(tmpdir.c_str());
  std::ostringstream js; js.precision(17);
  js << "{\"property\":" << jstr(p.id) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\"wall_s\":" << wall << ",\"violations\":" << nviol << ",\n";
  js << "\"coverage\":{\"evaluations\":" << evals + fixed_evals << ",\"distinct_nontrivial\":" << nt.size() << ",\"rule\":" << jstr(p.rule) << ",\n\"planned_cases\":" << N << ",\"discarded\":" << disc << ",\"nontrivial_cases\":" << ntc << ",\"library_solves\":" << sub << ",\"regression_cases\":" << fixed_evals << ",\n\"labels\":{";
  bool first = true; for (auto& kv : lab) { if (!first) js << ","; first = false; js << jstr(kv.first) << ":" << kv.second; }
  js << "},\n\"samples\":["; first = true; for (auto& s : samples) { if (!first) js << ",\n"; first = false; js << jstr(s); }
  js << "],\n\"notes\":["; first = true; for (auto& s : extra) { if (!first) js << ","; first = false; js << jstr(s); }
  js << "],\"known_findings\":["; first = true; for (auto& s : knowns) { if (!first) js << ","; first = false; js << jstr(s); }
  js << "]},\n\"assumptions\":["; first = true; for (auto& s : p.assumptions) { if (!first) js << ","; first = false; js << jstr(s); }
  js << "]}\n";
  if (!evid.empty()) write_file(evid, js.str());
  printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, %.1fs%s\n", p.id, tier.c_str(), (unsigned long long)seed, (unsigned long long)(evals + fixed_evals), nt.size(), (unsigned long long)disc, wall, rc ? " FAILED" : "");
  for (auto& kv : lab) printf("    %-44s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  for (auto& s : extra) printf("    note: %s\n", s.substr(0, 300).c_str());
  if (rc == 0 && evals > 0 && (long)(100 * ntc / evals) < p.min_nontrivial_pct)
    printf("    warning: only %llu%% of the cases were non-trivial\n", (unsigned long long)(100 * ntc / evals));
  return rc;
}

}  // namespace eng
