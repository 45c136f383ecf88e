// Runner of the property-based testing engine (see pbt.hpp).
//   --run --seed S --shard K --shards N --scale F --max-secs T --out DIR   run cases
//   --replay FILE                                                          run one case
//   --shrink FILE --max-secs T                                             minimise FILE
//   --prefix I  with --run: stop after global case ordinal I (deterministic re-run)
// exit: 0 all passed, 10 a CHECK failed (or escaped exception), anything else: crash.
#include "pbt.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt
{

std::vector<Prop> & registry() {static std::vector<Prop> r; return r;}

void fail(const char * file, int line, const std::string & msg)
{
  const char * base = std::strrchr(file, '/');
  throw Failure{std::string(base ? base + 1 : file) + ":" + std::to_string(line) + ": " + msg};
}

// ---- current case log (survives a crash of the process) -------------------
struct Log { std::uint64_t ordinal, prop, n; std::uint64_t v[1 << 20]; };
static Log * g_log = nullptr;

static std::uint64_t splitmix(std::uint64_t & x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static std::uint64_t rotl(std::uint64_t x, int k) {return (x << k) | (x >> (64 - k));}
static std::uint64_t next(std::uint64_t * s)
{
  const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}

std::uint64_t Case::below(std::uint64_t n)
{
  std::uint64_t v = 0;
  if (n == 0) {n = 1;}
  if (replay) {
    v = pos_ < replay->size() ? (*replay)[pos_] % n : 0;
  } else if (fuzz) {
    int bytes = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
    for (int i = 0; i < bytes; i++) {
      v = (v << 8) | (fuzz_pos < fuzz_size ? fuzz[fuzz_pos] : 0);
      fuzz_pos++;
    }
    v %= n;
  } else {
    v = next(rng) % n;
  }
  if (bulk_) {return v;}
  pos_++;
  choices.push_back(v);
  if (g_log && g_log->n < (1 << 20)) {g_log->v[g_log->n] = v; g_log->n++;}
  return v;
}

Case Case::bulk()
{
  Case r;
  std::uint64_t s = below(1ULL << 53);
  for (auto & v : r.rng) {v = splitmix(s);}
  r.bulk_ = true;
  return r;
}

static void start_log(std::uint64_t ordinal, std::uint64_t prop)
{
  if (g_log) {g_log->n = 0; g_log->ordinal = ordinal; g_log->prop = prop;}
}

static void watchdog(int secs)
{
  struct itimerval t {};
  t.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static int g_case_cpu_secs = 30;

// returns true when the case passed (or was discarded)
static bool run_case(const Prop & p, Case & c, std::string & msg, bool & discarded)
{
  discarded = false;
  watchdog(g_case_cpu_secs);
  try {
    p.fn(c);
  } catch (const Discard &) {
    discarded = true;
  } catch (const Failure & f) {
    msg = f.msg; watchdog(0); return false;
  } catch (const std::exception & e) {
    msg = std::string("escaped exception: ") + e.what(); watchdog(0); return false;
  } catch (...) {
    msg = "escaped exception of unknown type"; watchdog(0); return false;
  }
  watchdog(0);
  return true;
}

static std::string esc(const std::string & s)
{
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') {r += '\\'; r += ch;} else if (ch == '\n') {r += "\\n";} else if (
      static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) >= 127) {r += '?';} else {r += ch;}
  }
  return r;
}

static void write_case(const std::string & path, const std::string & prop,
  const std::vector<std::uint64_t> & ch, const std::string & msg, const std::string & notes)
{
  std::ofstream f(path);
  f << "prop " << prop << "\nchoices";
  for (auto v : ch) {f << " " << v;}
  f << "\n# " << esc(msg) << "\n# " << esc(notes.substr(0, 6000)) << "\n";
}

static bool read_case(const std::string & path, std::string & prop, std::vector<std::uint64_t> & ch)
{
  std::ifstream f(path);
  std::string line, w;
  bool ok = false;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    s >> w;
    if (w == "prop") {s >> prop; ok = true;}
    if (w == "choices") {std::uint64_t v; while (s >> v) {ch.push_back(v);}}
  }
  return ok;
}

static const Prop * find(const std::string & n)
{
  for (auto & p : registry()) {if (p.name == n) {return &p;}}
  return nullptr;
}

static int replay(const std::string & path, bool verbose)
{
  std::string name; std::vector<std::uint64_t> ch;
  if (!read_case(path, name, ch)) {std::fprintf(stderr, "cannot read %s\n", path.c_str()); return 3;}
  const Prop * p = find(name);
  if (!p) {std::fprintf(stderr, "no such property %s\n", name.c_str()); return 3;}
  Case c; c.replay = &ch;
  std::string msg; bool d;
  const bool ok = run_case(*p, c, msg, d);
  if (verbose) {
    std::printf("%s: %s\n%s\n%s\n", name.c_str(), ok ? (d ? "discarded" : "pass") : "FAIL",
      msg.c_str(), c.notes_.str().c_str());
    std::fflush(stdout);
  }
  return ok ? 0 : 10;
}

// One attempt in a child process; true when the child still fails (same kind not required).
static bool attempt(const Prop & p, const std::vector<std::uint64_t> & ch, int want_signal,
  std::vector<std::uint64_t> * used)
{
  int fd[2];
  if (pipe(fd)) {return false;}
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    ::close(fd[0]);
    const int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    g_log = nullptr;
    g_case_cpu_secs = 10;
    alarm(60);
    Case c; c.replay = &ch;
    std::string msg; bool d;
    const bool ok = run_case(p, c, msg, d);
    if (!ok) {
      const std::size_t n = std::min(c.choices.size(), ch.size());
      std::uint64_t m = n;
      (void)!write(fd[1], &m, sizeof m);
      std::size_t off = 0;
      while (off < n * 8) {
        ssize_t k = write(fd[1], reinterpret_cast<const char *>(c.choices.data()) + off, n * 8 - off);
        if (k <= 0) {break;}
        off += k;
      }
    }
    _exit(ok ? 0 : 10);
  }
  ::close(fd[1]);
  std::vector<char> buf; char tmp[65536]; ssize_t k;
  while ((k = read(fd[0], tmp, sizeof tmp)) > 0) {buf.insert(buf.end(), tmp, tmp + k);}
  ::close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  const int kind = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (kind == 0) {return false;}
  // keep the class of failure: a CHECK failure stays one, a crash stays a crash
  if ((want_signal == 10) != (kind == 10)) {return false;}
  if (used) {
    *used = ch;
    if (buf.size() >= 8) {
      std::uint64_t m; std::memcpy(&m, buf.data(), 8);
      if (buf.size() >= 8 + m * 8) {
        used->resize(m);
        std::memcpy(used->data(), buf.data() + 8, m * 8);
      }
    }
  }
  return true;
}

static int shrink(const std::string & path, double max_secs)
{
  std::string name; std::vector<std::uint64_t> ch;
  if (!read_case(path, name, ch)) {return 3;}
  const Prop * p = find(name);
  if (!p) {return 3;}
  const auto t0 = std::chrono::steady_clock::now();
  auto over = [&] {
      return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_secs;
    };
  int kind = 0;
  std::vector<std::uint64_t> cur;
  if (attempt(*p, ch, 10, &cur)) {kind = 10;} else if (attempt(*p, ch, 0, &cur)) {kind = 1;} else {return 4;}
  std::uint64_t tries = 0;
  auto test = [&](const std::vector<std::uint64_t> & x) {
      tries++;
      std::vector<std::uint64_t> u;
      if (x == cur || !attempt(*p, x, kind, &u)) {return false;}
      // accept only if not larger (length, then lexicographic)
      if (u.size() > cur.size()) {return false;}
      cur = u.size() <= x.size() ? u : x;
      return true;
    };
  bool improved = true;
  while (improved && !over()) {
    improved = false;
    const auto before = cur;
    for (std::size_t k = std::max<std::size_t>(1, cur.size() / 2); k >= 1 && !over(); k /= 2) {
      for (std::size_t i = 0; i + k <= cur.size() && !over(); ) {   // delete chunks
        auto x = cur;
        x.erase(x.begin() + i, x.begin() + i + k);
        if (!test(x)) {i += k;}
      }
      if (k == 1) {break;}
    }
    for (std::size_t k = 8; k >= 1 && !over(); k /= 2) {
      for (std::size_t i = 0; i + k <= cur.size() && !over(); i += k) {   // zero chunks
        auto x = cur;
        bool any = false;
        for (std::size_t j = i; j < i + k; j++) {any = any || x[j]; x[j] = 0;}
        if (any) {test(x);}
      }
      if (k == 1) {break;}
    }
    for (std::size_t i = 0; i < cur.size() && !over(); i++) {   // lower single values
      std::uint64_t lo = 0, hi = cur[i];
      while (lo + 1 < hi && i < cur.size() && !over()) {
        const std::uint64_t mid = lo + (hi - lo) / 2;
        auto x = cur; x[i] = mid;
        if (test(x)) {hi = mid;} else {lo = mid;}
      }
      // delete one element while lowering its (length-like) predecessor
      if (i + 1 < cur.size() && cur[i] > 0) {
        auto x = cur; x[i]--; x.erase(x.begin() + i + 1);
        test(x);
      }
    }
    improved = cur != before;
  }
  // final description
  Case c; c.replay = &cur;
  std::string msg = "crash", notes;
  if (kind == 10) {bool d; run_case(*p, c, msg, d); notes = c.notes_.str();}
  write_case(path + ".min", name, cur, msg, notes);
  std::printf("shrunk %zu -> %zu choices in %llu attempts: %s\n%s\n", ch.size(), cur.size(),
    static_cast<unsigned long long>(tries), msg.c_str(), notes.c_str());
  return 0;
}

static std::uint64_t hash(std::size_t prop, const std::vector<std::uint64_t> & v)
{
  std::uint64_t h = 1469598103934665603ULL ^ (prop * 0x9e3779b97f4a7c15ULL);
  for (auto x : v) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 1099511628211ULL;
  }
  return h;
}

static int run(std::uint64_t seed, std::uint64_t shard, std::uint64_t shards, double scale,
  double max_secs, const std::string & out, std::uint64_t prefix, const std::string & only)
{
  const int fd = open((out + "/cur." + std::to_string(shard)).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, sizeof(Log)) == 0) {
    void * m = mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) {g_log = static_cast<Log *>(m);}
  }
  const auto t0 = std::chrono::steady_clock::now();
  struct Stat { std::uint64_t want = 0, done = 0, nontrivial = 0, discarded = 0; std::map<std::string, std::uint64_t> labels; std::vector<std::string> samples; };
  auto & reg = registry();
  std::vector<Stat> st(reg.size());
  std::uint64_t total = 0;
  for (std::size_t i = 0; i < reg.size(); i++) {
    const double w = std::max(1., reg[i].cases * scale / shards);
    st[i].want = (only.empty() || only == reg[i].name) ? static_cast<std::uint64_t>(w) : 0;
    total += st[i].want;
  }
  std::unordered_set<std::uint64_t> seen;
  std::string msg; int rc = 0;
  std::uint64_t ordinal = 0;
  bool capped = false;
  std::string fail_prop;
  // Interleave the properties so that a time cap hits all of them alike.
  for (std::uint64_t step = 0; ordinal < total && rc == 0 && !capped; step++) {
    for (std::size_t i = 0; i < reg.size() && rc == 0; i++) {
      // proportional scheduling: property i is due when done/want <= overall fraction
      const std::uint64_t rounds = 64;
      const std::uint64_t due = std::min(st[i].want, (st[i].want * (step + 1) + rounds - 1) / rounds);
      while (st[i].done < due && rc == 0) {
        if (max_secs > 0 &&
          std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_secs)
        {
          capped = true; break;
        }
        if (ordinal >= prefix) {capped = true; break;}
        std::uint64_t x = seed * 0x2545F4914F6CDD1DULL + shard * 0x9E3779B97F4A7C15ULL;
        x = splitmix(x) + i * 0xD1B54A32D192ED03ULL;
        x = splitmix(x) + st[i].done;
        Case c;
        for (auto & r : c.rng) {r = splitmix(x);}
        start_log(ordinal, i);
        bool d;
        const bool ok = run_case(reg[i], c, msg, d);
        ordinal++;
        st[i].done++;
        if (!ok) {
          rc = 10;
          fail_prop = reg[i].name;
          write_case(out + "/fail." + std::to_string(shard), reg[i].name, c.choices, msg, c.notes_.str());
          break;
        }
        if (d) {st[i].discarded++; continue;}
        for (auto & l : c.labels_) {st[i].labels[l.first]++;}
        if (c.nontrivial_) {
          if (seen.insert(hash(i, c.choices)).second) {
            st[i].nontrivial++;
            if (st[i].samples.size() < 2 && !c.notes_.str().empty()) {
              st[i].samples.push_back(c.notes_.str().substr(0, 1500));
            }
          }
        }
      }
      if (capped) {break;}
    }
  }
  std::ofstream f(out + "/stat." + std::to_string(shard));
  f << "{\"rc\":" << rc << ",\"capped\":" << (capped ? "true" : "false") << ",\"ordinal\":" << ordinal <<
    ",\"msg\":\"" << esc(rc ? msg : "") << "\",\"props\":{";
  for (std::size_t i = 0; i < reg.size(); i++) {
    f << (i ? "," : "") << "\"" << reg[i].name << "\":{\"want\":" << st[i].want << ",\"done\":" << st[i].done <<
      ",\"nontrivial\":" << st[i].nontrivial << ",\"discarded\":" << st[i].discarded << ",\"labels\":{";
    bool first = true;
    for (auto & l : st[i].labels) {
      f << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false;
    }
    f << "},\"samples\":[";
    for (std::size_t k = 0; k < st[i].samples.size(); k++) {
      f << (k ? "," : "") << "\"" << esc(st[i].samples[k]) << "\"";
    }
    f << "]}";
  }
  f << "}}\n";
  f.close();
  std::ofstream h(out + "/hash." + std::to_string(shard), std::ios::binary);
  for (auto v : seen) {h.write(reinterpret_cast<const char *>(&v), 8);}
  if (rc) {std::printf("FAIL %s case %llu: %s\n", fail_prop.c_str(), static_cast<unsigned long long>(ordinal - 1), msg.c_str());}
  return rc;
}

}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t * data, std::size_t size)
{
  if (size < 1) {return -1;}
  auto & reg = pbt::registry();
  static const char * only = std::getenv("PBT_ONLY");
  std::size_t i = data[0] % reg.size();
  if (only) {for (std::size_t k = 0; k < reg.size(); k++) {if (reg[k].name == only) {i = k;}}}
  pbt::Case c;
  c.fuzz = data + 1; c.fuzz_size = size - 1;
  // log for crashes
  static pbt::Log * log = [] {
      const char * d = std::getenv("PBT_CUR");
      if (!d) {return static_cast<pbt::Log *>(nullptr);}
      const int fd = open(d, O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(pbt::Log))) {return static_cast<pbt::Log *>(nullptr);}
      void * m = mmap(nullptr, sizeof(pbt::Log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      return m == MAP_FAILED ? nullptr : static_cast<pbt::Log *>(m);
    }();
  pbt::g_log = log;
  pbt::start_log(0, i);
  std::string msg; bool d;
  if (!pbt::run_case(reg[i], c, msg, d)) {
    const char * f = std::getenv("PBT_FAIL_FILE");
    if (f) {pbt::write_case(f, reg[i].name, c.choices, msg, c.notes_.str());}
    std::fprintf(stderr, "FAIL %s: %s\n", reg[i].name.c_str(), msg.c_str());
    std::fflush(stderr);
    _exit(77);
  }
  return 0;
}
#else
int main(int argc, char ** argv)
{
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    if (i + 1 < argc && std::string(argv[i + 1]).rfind("--", 0) != 0) {a[k] = argv[++i];} else {a[k] = "1";}
  }
  auto num = [&](const char * k, double d) {return a.count(k) ? std::stod(a[k]) : d;};
  if (a.count("--case-cpu")) {pbt::g_case_cpu_secs = static_cast<int>(num("--case-cpu", 30));}
  if (a.count("--list")) {
    for (auto & p : pbt::registry()) {std::printf("%s %llu\n", p.name.c_str(), (unsigned long long)p.cases);}
    return 0;
  }
  if (a.count("--replay")) {return pbt::replay(a["--replay"], true);}
  if (a.count("--shrink")) {return pbt::shrink(a["--shrink"], num("--max-secs", 60));}
  if (a.count("--run")) {
    return pbt::run(static_cast<std::uint64_t>(num("--seed", 1)), static_cast<std::uint64_t>(num("--shard", 0)),
             static_cast<std::uint64_t>(num("--shards", 1)), num("--scale", 1), num("--max-secs", 0),
             a.count("--out") ? a["--out"] : ".",
             a.count("--prefix") ? std::stoull(a["--prefix"]) : std::numeric_limits<std::uint64_t>::max(),
             a.count("--only") ? a["--only"] : "");
  }
  std::fprintf(stderr, "usage: --run | --replay F | --shrink F | --list\n");
  return 3;
}
#endif
