#include "pbt.h"

#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <thread>
#include <typeinfo>
#include <unordered_set>

namespace pbt {
namespace {

uint64_t splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ull;
  return h;
}

double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct CaseState {
  bool nontrivial{false};
  bool noting{false};
  std::string notes;
  std::map<std::string, uint64_t> labels;
};
CaseState g_case;
std::map<std::string, std::string>& rules() {
  static std::map<std::string, std::string> r;
  return r;
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char buf[8];
          snprintf(buf, sizeof buf, "\\u%04x", c);
          o += buf;
        } else {
          o += static_cast<char>(c);
        }
    }
  }
  return o;
}

struct Outcome {
  bool failed{false};
  std::string tag;
  std::string msg;
  std::string notes;
  std::vector<uint64_t> choices;
};

// Runs one case in this process.
Outcome run_case(const Probe& p, Src* src, bool noting) {
  g_case = CaseState{};
  g_case.noting = noting;
  Outcome o;
  try {
    p.fn(*src);
  } catch (const Failure& f) {
    o.failed = true;
    o.tag = f.tag;
    o.msg = f.msg;
  } catch (...) {
    o.failed = true;
    std::string what;
    o.tag = "unexpected-exception:" + demangled_current_exception(&what);
    o.msg = "unexpected exception: " + what;
  }
  o.notes = g_case.notes;
  return o;
}

void redirect_output(const std::string& path) {
  const int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
  }
}

void put_str(std::string* out, const std::string& s) {
  const uint64_t n = s.size();
  out->append(reinterpret_cast<const char*>(&n), sizeof n);
  out->append(s);
}
bool get_str(const std::string& in, size_t* pos, std::string* s) {
  uint64_t n;
  if (*pos + sizeof n > in.size()) return false;
  memcpy(&n, in.data() + *pos, sizeof n);
  *pos += sizeof n;
  if (*pos + n > in.size()) return false;
  s->assign(in, *pos, n);
  *pos += n;
  return true;
}

std::string g_tmp;

// Runs one case in a forked child. Exactly one of seed / choices is used.
Outcome run_forked(const Probe& p, const uint64_t* seed, const std::vector<uint64_t>* choices, double timeout_s) {
  int fds[2];
  if (pipe(fds) != 0) abort();
  const std::string err_path = g_tmp + "/single.err";
  // The recorded choices live in a shared mapping so that they survive a crash.
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    setpgid(0, 0);
    redirect_output(err_path);
    Src src = seed ? Src(*seed) : Src(*choices);
    Outcome o = run_case(p, &src, true);
    std::string out;
    put_str(&out, o.failed ? "F" : "P");
    put_str(&out, o.tag);
    put_str(&out, o.msg.substr(0, 8000));
    put_str(&out, o.notes.substr(0, 20000));
    put_str(&out, std::string(reinterpret_cast<const char*>(src.recorded().data()), src.recorded().size() * 8));
    size_t off = 0;
    while (off < out.size()) {
      const ssize_t w = write(fds[1], out.data() + off, out.size() - off);
      if (w <= 0) break;
      off += w;
    }
    _exit(0);
  }
  close(fds[1]);
  std::string in;
  const double deadline = now_s() + timeout_s;
  bool hang = false;
  for (;;) {
    struct pollfd pf = {fds[0], POLLIN, 0};
    const double left = deadline - now_s();
    if (left <= 0) {
      hang = true;
      break;
    }
    const int r = poll(&pf, 1, static_cast<int>(std::min(left, 1.0) * 1000) + 1);
    if (r > 0) {
      char buf[65536];
      const ssize_t n = read(fds[0], buf, sizeof buf);
      if (n <= 0) break;
      in.append(buf, n);
    }
  }
  close(fds[0]);
  if (hang) {
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Outcome o;
  size_t pos = 0;
  std::string pf, rec;
  if (!hang && get_str(in, &pos, &pf) && get_str(in, &pos, &o.tag) && get_str(in, &pos, &o.msg) &&
      get_str(in, &pos, &o.notes) && get_str(in, &pos, &rec)) {
    o.failed = pf == "F";
    o.choices.resize(rec.size() / 8);
    memcpy(o.choices.data(), rec.data(), rec.size());
    return o;
  }
  o.failed = true;
  if (hang) {
    o.tag = "hang";
    o.msg = "the case did not finish in " + std::to_string(timeout_s) + " s";
  } else {
    std::ifstream is(err_path);
    std::stringstream ss;
    ss << is.rdbuf();
    std::string err = ss.str();
    if (err.size() > 6000) err = err.substr(0, 6000);
    o.tag = "crash";
    o.msg = "process died (wait status " + std::to_string(status) + "):\n" + err;
  }
  if (choices) o.choices = *choices;
  return o;
}

uint64_t case_seed(const Probe& p, uint64_t seed, uint64_t k) {
  uint64_t h = hash_bytes(p.property.data(), p.property.size());
  h = hash_bytes(p.name.data(), p.name.size(), h);
  h ^= seed * 0xd6e8feb86659fd93ull;
  uint64_t s = h;
  splitmix(&s);
  s ^= k * 0xa0761d6478bd642full;
  return splitmix(&s);
}

struct Slot {  // One per worker, shared with the parent.
  volatile uint64_t probe;
  volatile uint64_t idx;
  volatile double start;
  volatile int running;
  volatile int failed;
  volatile uint64_t fail_probe;
  volatile uint64_t fail_idx;
  volatile uint64_t evaluations;
  volatile int done;
};

struct ProbeStats {
  uint64_t cases{0};
  uint64_t nontrivial{0};
  std::map<std::string, uint64_t> labels;
  std::vector<std::pair<uint64_t, std::string>> samples;
};

// Choices recorded before a crash cannot be reported by the dead process, so cases are re-generated from their seed
// with this helper: a Src that mirrors each drawn value to shared memory.
struct SharedRec {
  volatile uint64_t n;
  uint64_t v[1 << 20];
};
SharedRec* g_shared_rec = nullptr;
bool g_mirror = false;

void worker(const std::vector<Probe>& ps, const std::vector<uint64_t>& counts, uint64_t seed, unsigned w, unsigned nw,
            Slot* slot, const std::string& out_path, uint64_t from_probe, uint64_t from_idx, double soft_deadline) {
  redirect_output("/dev/null");
  std::vector<ProbeStats> stats(ps.size());
  std::unordered_set<uint64_t> distinct;
  bool stop = false;
  for (uint64_t pi = from_probe; pi < ps.size() && !stop; ++pi) {
    ProbeStats& st = stats[pi];
    uint64_t k = w;
    if (pi == from_probe && from_idx > 0) k = from_idx;
    for (; k < counts[pi]; k += nw) {
      if (now_s() > soft_deadline) {
        break;
      }
      slot->probe = pi;
      slot->idx = k;
      slot->start = now_s();
      slot->running = 1;
      Src src(case_seed(ps[pi], seed, k));
      const bool noting = st.samples.size() < 2;
      Outcome o = run_case(ps[pi], &src, noting);
      slot->running = 0;
      slot->evaluations = slot->evaluations + 1;
      ++st.cases;
      if (o.failed) {
        slot->fail_probe = pi;
        slot->fail_idx = k;
        slot->failed = 1;
        stop = true;
        break;
      }
      for (const auto& l : g_case.labels) st.labels[l.first] += l.second;
      if (g_case.nontrivial) {
        uint64_t h = hash_bytes(ps[pi].name.data(), ps[pi].name.size());
        h = hash_bytes(src.recorded().data(), src.recorded().size() * 8, h);
        if (distinct.insert(h).second) ++st.nontrivial;
        if (noting && st.samples.size() < 2) st.samples.emplace_back(k, o.notes.substr(0, 1500));
      }
    }
  }
  std::ofstream os(out_path, std::ios::binary);
  for (size_t pi = 0; pi < ps.size(); ++pi) {
    std::string out;
    const ProbeStats& st = stats[pi];
    put_str(&out, std::to_string(st.cases));
    put_str(&out, std::to_string(st.nontrivial));
    put_str(&out, std::to_string(st.labels.size()));
    for (const auto& l : st.labels) {
      put_str(&out, l.first);
      put_str(&out, std::to_string(l.second));
    }
    put_str(&out, std::to_string(st.samples.size()));
    for (const auto& s : st.samples) {
      put_str(&out, std::to_string(s.first));
      put_str(&out, s.second);
    }
    os << out;
  }
  std::string out;
  put_str(&out, std::to_string(distinct.size()));
  os << out;
  for (uint64_t h : distinct) os.write(reinterpret_cast<const char*>(&h), 8);
  os.close();
  slot->done = 1;
  _exit(0);
}

// Shrinks a failing choice sequence, keeping its tag.
Outcome shrink(const Probe& p, Outcome best, double budget_s, int max_attempts, double timeout_s) {
  const double deadline = now_s() + budget_s;
  int attempts = 0;
  const std::string tag = best.tag;
  const bool hang = tag == "hang";
  const double to = hang ? std::min(timeout_s, 5.) : timeout_s;
  std::set<std::vector<uint64_t>> seen;
  auto try_it = [&](const std::vector<uint64_t>& c) -> bool {
    if (attempts >= max_attempts || now_s() > deadline) return false;
    if (!seen.insert(c).second) return false;
    ++attempts;
    Outcome o = run_forked(p, nullptr, &c, to);
    if (!o.failed || o.tag != tag) return false;
    if (o.tag != "crash" && o.tag != "hang") {
      // The run records what was really drawn (trailing choices are dropped, out-of-range ones clipped).
      if (o.choices.size() > c.size()) return false;
    }
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && attempts < max_attempts && now_s() < deadline) {
    progress = false;
    // Delete chunks.
    for (size_t len : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      size_t pos = best.choices.size();
      while (pos > 0 && attempts < max_attempts && now_s() < deadline) {
        if (pos < len) break;
        const size_t at = pos - len;
        std::vector<uint64_t> c = best.choices;
        if (at + len <= c.size()) {
          c.erase(c.begin() + at, c.begin() + at + len);
          if (try_it(c)) {
            progress = true;
            pos = std::min(at, best.choices.size());
            continue;
          }
          // A list length just before the chunk may need to go down with it.
          if (at > 0) {
            c = best.choices;
            if (at + len <= c.size() && c[at - 1] > 0) {
              c.erase(c.begin() + at, c.begin() + at + len);
              --c[at - 1];
              if (try_it(c)) progress = true;
            }
          }
        }
        --pos;
        pos = std::min(pos, best.choices.size());
      }
    }
    // Zero chunks, then lower single values.
    for (size_t len : {8u, 4u, 2u}) {
      for (size_t at = 0; at + len <= best.choices.size(); at += len) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t k = at; k < at + len; ++k) {
          any = any || c[k] != 0;
          c[k] = 0;
        }
        if (any && try_it(c)) progress = true;
      }
    }
    for (size_t at = 0; at < best.choices.size(); ++at) {
      if (best.choices[at] == 0) continue;
      std::vector<uint64_t> c = best.choices;
      c[at] = 0;
      if (try_it(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best.choices[at];
      while (hi - lo > 1) {
        const uint64_t mid = lo + (hi - lo) / 2;
        c = best.choices;
        if (at >= c.size()) break;
        c[at] = mid;
        if (try_it(c)) {
          progress = true;
          hi = mid;
        } else {
          lo = mid;
        }
        if (attempts >= max_attempts || now_s() > deadline) break;
      }
    }
  }
  return best;
}

// Recovers the choices of a case which killed its process.
std::vector<uint64_t> recover_choices(const Probe& p, uint64_t seed, double timeout_s) {
  g_shared_rec->n = 0;
  g_mirror = true;
  run_forked(p, &seed, nullptr, timeout_s);
  g_mirror = false;
  const uint64_t n = std::min<uint64_t>(static_cast<uint64_t>(g_shared_rec->n), 1 << 20);
  return std::vector<uint64_t>(g_shared_rec->v, g_shared_rec->v + n);
}

std::string choices_json(const std::vector<uint64_t>& c) {
  std::string s = "[";
  for (size_t k = 0; k < c.size(); ++k) s += (k ? "," : "") + std::to_string(c[k]);
  return s + "]";
}

struct KnownFinding {
  std::string property, probe, text;
  std::vector<uint64_t> choices;
};

}  // namespace

uint64_t Src::next() { return splitmix(&state_); }

uint64_t Src::draw(uint64_t max) {
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    ++pos_;
    if (v > max) v = max;
  } else if (max == 0) {
    v = 0;
  } else if (max == UINT64_MAX) {
    v = next();
  } else {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * (max + 1)) >> 64);
  }
  rec_.push_back(v);
  if (g_mirror && g_shared_rec && g_shared_rec->n < (1 << 20)) {
    g_shared_rec->v[g_shared_rec->n] = v;
    g_shared_rec->n = g_shared_rec->n + 1;
  }
  return v;
}

std::vector<Probe>& probes() {
  static std::vector<Probe> p;
  return p;
}
Rule::Rule(const char* property, const char* rule) { rules()[property] = rule; }

void nontrivial() { g_case.nontrivial = true; }
void label(const std::string& l, uint64_t n) { g_case.labels[l] += n; }
void note(const std::string& s) {
  if (g_case.noting && g_case.notes.size() < 20000) g_case.notes += (g_case.notes.empty() ? "" : "; ") + s;
}
bool noting() { return g_case.noting; }
void fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }

std::string demangled_current_exception(std::string* what) {
  try {
    throw;
  } catch (const std::exception& e) {
    *what = e.what();
  } catch (...) {
    *what = "not a std::exception";
  }
  const std::type_info* t = abi::__cxa_current_exception_type();
  if (!t) return "unknown";
  int st = 0;
  char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
  std::string r = d ? d : t->name();
  free(d);
  return r;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
  std::string property, tier = "quick", evidence, replay, replay_dir = "/verif/replays", only_probe;
  std::string known_path = "/verif/known_findings.txt";
  uint64_t seed = 1;
  double scale = 1., soft_s = 0., shrink_s = 60.;
  unsigned nw = std::max(1u, std::min(8u, std::thread::hardware_concurrency()));
  bool keep_going = false, list = false;
  int64_t only_case = -1;
  for (int k = 1; k < argc; ++k) {
    const std::string a = argv[k];
    auto val = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
    if (a == "--property") property = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--probe") only_probe = val();
    else if (a == "--case") only_case = atoll(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--soft") soft_s = atof(val().c_str());
    else if (a == "--shrink-seconds") shrink_s = atof(val().c_str());
    else if (a == "--jobs") nw = atoi(val().c_str());
    else if (a == "--known") known_path = val();
    else if (a == "--keep-going") keep_going = true;
    else if (a == "--list") list = true;
    else {
      std::cerr << "unknown argument " << a << std::endl;
      return 2;
    }
  }
  signal(SIGPIPE, SIG_IGN);
  struct rlimit no_core = {0, 0};
  setrlimit(RLIMIT_CORE, &no_core);
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) return 2;
  g_tmp = tmpl;
  struct Cleanup {
    pid_t pid = getpid();
    ~Cleanup() {
      if (getpid() == pid && g_tmp.rfind("/tmp/pbt.", 0) == 0) {
        const int rc = system(("rm -rf '" + g_tmp + "'").c_str());
        (void)rc;
      }
    }
  } cleanup;
  g_shared_rec = static_cast<SharedRec*>(
      mmap(nullptr, sizeof(SharedRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

  std::vector<Probe> ps;
  for (const Probe& p : probes())
    if ((property.empty() || p.property == property) && (only_probe.empty() || p.name == only_probe)) ps.push_back(p);
  if (list) {
    for (const Probe& p : ps) std::cout << p.property << " " << p.name << " " << p.quick << " " << p.thorough << "\n";
    return 0;
  }

  auto find_probe = [&](const std::string& prop, const std::string& name) -> const Probe* {
    for (const Probe& p : probes())
      if (p.property == prop && p.name == name) return &p;
    return nullptr;
  };

  if (!replay.empty()) {
    std::ifstream is(replay);
    std::stringstream ss;
    ss << is.rdbuf();
    const std::string text = ss.str();
    auto field = [&](const std::string& f) -> std::string {
      const size_t at = text.find("\"" + f + "\": \"");
      if (at == std::string::npos) return "";
      const size_t b = at + f.size() + 5;
      return text.substr(b, text.find('"', b) - b);
    };
    std::vector<uint64_t> choices;
    size_t at = text.find("\"choices\": [");
    if (at == std::string::npos) {
      std::cerr << "no choices in " << replay << std::endl;
      return 2;
    }
    at += strlen("\"choices\": [");
    while (at < text.size() && text[at] != ']') {
      char* end;
      choices.push_back(strtoull(text.c_str() + at, &end, 10));
      at = end - text.c_str();
      while (at < text.size() && (text[at] == ',' || text[at] == ' ')) ++at;
    }
    const Probe* p = find_probe(field("property"), field("probe"));
    if (!p) {
      std::cerr << "unknown probe in " << replay << std::endl;
      return 2;
    }
    const Outcome o = run_forked(*p, nullptr, &choices, p->timeout_s);
    std::cout << (o.failed ? "FAILS " : "PASSES ") << o.tag << "\n" << o.msg << "\n" << o.notes << std::endl;
    if (o.failed) {
      std::cout << "VIOLATION property=" << p->property << " replay=" << replay << std::endl;
      return 1;
    }
    return 0;
  }

  if (only_case >= 0) {
    for (const Probe& p : ps) {
      const uint64_t s = case_seed(p, seed, only_case);
      const Outcome o = run_forked(p, &s, nullptr, p.timeout_s);
      std::cout << p.name << ": " << (o.failed ? "FAILS " : "PASSES ") << o.tag << "\n" << o.msg << "\n" << o.notes << "\n";
    }
    return 0;
  }

  if (ps.empty()) {
    std::cerr << "no probes for property " << property << std::endl;
    return 2;
  }
  const bool thorough = tier == "thorough";
  if (soft_s <= 0) soft_s = thorough ? 780. : 420.;
  const double t0 = now_s();

  // Known findings: "KNOWN-FINDING property=<id> probe=<name> choices=[...] <text>"; "fixed:" lines are ignored.
  std::vector<KnownFinding> known;
  {
    std::ifstream is(known_path);
    std::string line;
    while (std::getline(is, line)) {
      std::istringstream ls(line);
      std::string w, prop, probe, choices, rest;
      ls >> w >> prop >> probe >> choices;
      if (w != "KNOWN-FINDING") continue;
      KnownFinding kf;
      kf.property = prop.substr(prop.find('=') + 1);
      kf.probe = probe.substr(probe.find('=') + 1);
      std::getline(ls, rest);
      kf.text = rest;
      known.push_back(kf);
    }
  }

  std::vector<uint64_t> counts;
  for (const Probe& p : ps)
    counts.push_back(static_cast<uint64_t>(std::ceil((thorough ? p.thorough : p.quick) * scale)));

  Slot* slots = static_cast<Slot*>(
      mmap(nullptr, sizeof(Slot) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(static_cast<void*>(slots), 0, sizeof(Slot) * nw);
  const double soft_deadline = t0 + soft_s;
  std::vector<pid_t> pids(nw);
  std::vector<int> generation(nw, 0);
  std::vector<std::string> outs;
  auto spawn = [&](unsigned w, uint64_t from_probe, uint64_t from_idx) {
    const std::string out = g_tmp + "/out." + std::to_string(w) + "." + std::to_string(generation[w]++);
    outs.push_back(out);
    slots[w].running = 0;
    slots[w].failed = 0;
    slots[w].done = 0;
    std::cout.flush();
    const pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      worker(ps, counts, seed, w, nw, &slots[w], out, from_probe, from_idx, soft_deadline);
    }
    pids[w] = pid;
  };
  for (unsigned w = 0; w < nw; ++w) spawn(w, 0, 0);

  struct Fail {
    uint64_t probe, idx;
    std::string kind;
  };
  std::vector<Fail> fails;
  unsigned alive = nw;
  bool abort_all = false;
  while (alive > 0) {
    usleep(20000);
    for (unsigned w = 0; w < nw; ++w) {
      if (pids[w] <= 0) continue;
      int status;
      const pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool ended = r == pids[w];
      std::string kind;
      if (!ended && slots[w].running) {
        const double start = slots[w].start;
        if (now_s() - start > ps[slots[w].probe].timeout_s && slots[w].running && slots[w].start == start) {
          kill(-pids[w], SIGKILL);
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          ended = true;
          kind = "hang";
        }
      }
      if (!ended) continue;
      kill(-pids[w], SIGKILL);
      pids[w] = 0;
      --alive;
      uint64_t fp = 0, fi = 0;
      bool failed = false;
      if (slots[w].failed) {
        failed = true;
        kind = "failure";
        fp = slots[w].fail_probe;
        fi = slots[w].fail_idx;
      } else if (!slots[w].done) {
        failed = true;
        if (kind.empty()) kind = "crash";
        fp = slots[w].probe;
        fi = slots[w].idx;
      }
      if (failed) {
        fails.push_back({fp, fi, kind});
        if (keep_going) {
          // Goes on with the next probe.
          if (fp + 1 < ps.size()) {
            spawn(w, fp + 1, 0);
            ++alive;
          }
        } else {
          abort_all = true;
        }
      }
    }
    if (abort_all) {
      for (unsigned w = 0; w < nw; ++w) {
        if (pids[w] > 0) {
          kill(-pids[w], SIGKILL);
          kill(pids[w], SIGKILL);
          waitpid(pids[w], nullptr, 0);
          if (slots[w].failed) fails.push_back({slots[w].fail_probe, slots[w].fail_idx, "failure"});
          pids[w] = 0;
        }
      }
      alive = 0;
    }
  }
  uint64_t evaluations = 0;
  for (unsigned w = 0; w < nw; ++w) evaluations += slots[w].evaluations;

  // Merge statistics.
  std::vector<ProbeStats> stats(ps.size());
  std::unordered_set<uint64_t> distinct;
  for (const std::string& path : outs) {
    std::ifstream is(path, std::ios::binary);
    if (!is) continue;
    std::stringstream ss;
    ss << is.rdbuf();
    const std::string in = ss.str();
    size_t pos = 0;
    std::string s, t;
    for (size_t pi = 0; pi < ps.size(); ++pi) {
      if (!get_str(in, &pos, &s)) break;
      stats[pi].cases += strtoull(s.c_str(), nullptr, 10);
      get_str(in, &pos, &s);
      stats[pi].nontrivial += strtoull(s.c_str(), nullptr, 10);
      get_str(in, &pos, &s);
      for (uint64_t n = strtoull(s.c_str(), nullptr, 10); n > 0; --n) {
        get_str(in, &pos, &s);
        get_str(in, &pos, &t);
        stats[pi].labels[s] += strtoull(t.c_str(), nullptr, 10);
      }
      get_str(in, &pos, &s);
      for (uint64_t n = strtoull(s.c_str(), nullptr, 10); n > 0; --n) {
        get_str(in, &pos, &s);
        get_str(in, &pos, &t);
        stats[pi].samples.emplace_back(strtoull(s.c_str(), nullptr, 10), t);
      }
    }
    if (get_str(in, &pos, &s)) {
      for (uint64_t n = strtoull(s.c_str(), nullptr, 10); n > 0 && pos + 8 <= in.size(); --n, pos += 8) {
        uint64_t h;
        memcpy(&h, in.data() + pos, 8);
        distinct.insert(h);
      }
    }
  }

  // Confirm, shrink and report.
  std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) {
    return std::make_pair(a.probe, a.idx) < std::make_pair(b.probe, b.idx);
  });
  int violations = 0, unreproduced = 0;
  std::set<std::string> reported;
  for (const Fail& f : fails) {
    const Probe& p = ps[f.probe];
    if (reported.count(p.name)) continue;
    const uint64_t s = case_seed(p, seed, f.idx);
    Outcome o = run_forked(p, &s, nullptr, p.timeout_s);
    int bad = o.failed ? 1 : 0;
    const int tries = f.kind == "hang" ? 2 : 3;
    for (int k = 1; k < tries; ++k) {
      Outcome o2 = run_forked(p, &s, nullptr, p.timeout_s);
      if (o2.failed) {
        ++bad;
        if (!o.failed) o = o2;
      }
    }
    // Hangs which take time to notice are tried less often.
    const int more = f.kind != "hang" ? 40 : p.timeout_s <= 20. ? 8 : 0;
    for (int k = 0; k < more && bad == 0; ++k) {
      o = run_forked(p, &s, nullptr, p.timeout_s);
      if (o.failed) ++bad;
    }
    if (bad == 0) {
      ++unreproduced;
      std::cerr << "UNREPRODUCED " << p.property << " " << p.name << " case " << f.idx << " (" << f.kind << ")\n";
      continue;
    }
    reported.insert(p.name);
    if (o.tag == "crash" || o.tag == "hang") o.choices = recover_choices(p, s, std::min(p.timeout_s, 10.));
    const Outcome first = o;
    if (o.tag != "hang") o = shrink(p, o, shrink_s, 3000, std::min(p.timeout_s, 20.));
    // The shrunk case must reproduce too.
    bool ok = true;
    for (int k = 0; k < 3; ++k) ok = ok && run_forked(p, nullptr, &o.choices, p.timeout_s).failed;
    if (!ok) o = first;
    mkdir(replay_dir.c_str(), 0755);
    const uint64_t h = hash_bytes(o.choices.data(), o.choices.size() * 8);
    char hex[20];
    snprintf(hex, sizeof hex, "%08x", static_cast<unsigned>(h ^ (h >> 32)));
    const std::string path = replay_dir + "/" + p.property + "-" + p.name + "-" + hex + ".json";
    std::ofstream os(path);
    os << "{\n \"property\": \"" << p.property << "\",\n \"probe\": \"" << p.name << "\",\n \"seed\": " << seed
       << ",\n \"case\": " << f.idx << ",\n \"reproduced\": " << bad << ",\n \"tag\": \"" << json_escape(o.tag)
       << "\",\n \"message\": \"" << json_escape(o.msg) << "\",\n \"notes\": \"" << json_escape(o.notes)
       << "\",\n \"choices\": " << choices_json(o.choices) << "\n}\n";
    os.close();
    std::cout << "FAILED " << p.property << "/" << p.name << " [" << o.tag << "] " << o.msg << "\n  case: " << o.notes
              << "\n";
    std::cout << "VIOLATION property=" << p.property << " replay=" << path << std::endl;
    ++violations;
  }

  const double wall = now_s() - t0;
  for (size_t pi = 0; pi < ps.size(); ++pi) {
    std::cout << ps[pi].property << "/" << ps[pi].name << ": cases=" << stats[pi].cases << "/" << counts[pi]
              << " nontrivial=" << stats[pi].nontrivial;
    for (const auto& l : stats[pi].labels) std::cout << " " << l.first << "=" << l.second;
    std::cout << "\n";
  }
  std::cout << "evaluations=" << evaluations << " distinct_nontrivial=" << distinct.size() << " wall_s=" << wall
            << (unreproduced ? " unreproduced=" + std::to_string(unreproduced) : "") << std::endl;

  if (!evidence.empty()) {
    std::ofstream os(evidence + ".tmp");
    os.precision(6);
    os << "{\n \"property\": \"" << property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
       << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations
       << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": \"" << json_escape(rules()[property])
       << "\",\n  \"probes\": {";
    for (size_t pi = 0; pi < ps.size(); ++pi) {
      os << (pi ? "," : "") << "\n   \"" << ps[pi].name << "\": {\"cases\": " << stats[pi].cases
         << ", \"nontrivial\": " << stats[pi].nontrivial << ", \"labels\": {";
      bool first = true;
      for (const auto& l : stats[pi].labels) {
        os << (first ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
        first = false;
      }
      os << "}}";
    }
    os << "},\n  \"samples\": [";
    bool first = true;
    for (size_t pi = 0; pi < ps.size(); ++pi) {
      std::sort(stats[pi].samples.begin(), stats[pi].samples.end());
      for (size_t k = 0; k < stats[pi].samples.size() && k < 2; ++k) {
        os << (first ? "" : ",") << "\n   {\"probe\": \"" << ps[pi].name << "\", \"case\": " << stats[pi].samples[k].first
           << ", \"text\": \"" << json_escape(stats[pi].samples[k].second) << "\"}";
        first = false;
      }
    }
    os << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    os.close();
    rename((evidence + ".tmp").c_str(), evidence.c_str());
  }
  return violations ? 1 : 0;
}
