// P29: discovery of files and plugins. P34: paths and files.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include <filesystem>

#include "maliput/api/road_network.h"
#include "maliput/common/assertion_error.h"
#include "maliput/common/filesystem.h"
#include "maliput/plugin/create_road_network.h"
#include "maliput/plugin/maliput_plugin.h"
#include "maliput/plugin/maliput_plugin_manager.h"
#include "maliput/utility/file_utils.h"
#include "pbt.h"

namespace {

namespace fs = std::filesystem;
using maliput::common::Filesystem;
using maliput::common::Path;
using maliput::plugin::MaliputPlugin;
using maliput::plugin::MaliputPluginManager;
using maliput::plugin::MaliputPluginType;

PBT_RULE(P29, "at least two directories or two plugins were generated");
PBT_RULE(P34, "at least two entries were created or the file is not empty");

// A scratch directory which goes away with the case. Everything happens inside.
struct Scratch {
  Scratch() {
    char t[] = "/tmp/pbt-files-XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    root = t;
  }
  ~Scratch() {
    if (root.rfind("/tmp/pbt-files-", 0) == 0) {
      std::error_code ec;
      fs::remove_all(root, ec);
    }
  }
  std::string root;
};

void write_file(const std::string& path, const std::string& content) {
  std::ofstream os(path, std::ios::binary);
  os.write(content.data(), static_cast<std::streamsize>(content.size()));
}

std::string real_read(const std::string& path) {
  std::string r;
  const int fd = open(path.c_str(), O_RDONLY);
  char buf[4096];
  ssize_t k;
  while (fd >= 0 && (k = read(fd, buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(k));
  if (fd >= 0) close(fd);
  return r;
}

struct EnvGuard {
  EnvGuard(std::string name) : name(std::move(name)) {
    if (const char* v = getenv(this->name.c_str())) old = v;
  }
  ~EnvGuard() {
    if (old) {
      setenv(name.c_str(), old->c_str(), 1);
    } else {
      unsetenv(name.c_str());
    }
  }
  std::string name;
  std::optional<std::string> old;
};

// ---------------------------------------------------------------------------------------------------------------------
// P29
// ---------------------------------------------------------------------------------------------------------------------

struct Variant {
  std::string file;
  std::string id;
  int version;
  int kind;
};

const std::vector<Variant>& Variants() {
  static const std::vector<Variant> v = [] {
    std::vector<Variant> r;
    const std::string dir = fs::read_symlink("/proc/self/exe").parent_path().string() + "/plugins/";
    for (int k = 0; k < 4; ++k) {
      for (int version = 1; version <= 3; ++version) {
        r.push_back({dir + "p_" + std::to_string(k) + "_" + std::to_string(version) + "_0.so",
                     "id." + std::to_string(k), version, 0});
      }
    }
    r.push_back({dir + "p_1_4_3.so", "id.1", 4, 3});
    r.push_back({dir + "p_9_5_3.so", "id.9", 5, 3});
    r.push_back({dir + "p_2_6_1.so", "id.2", 6, 1});
    r.push_back({dir + "p_2_7_2.so", "id.2", 7, 2});
    return r;
  }();
  return v;
}
constexpr size_t kSound = 14;  // Variants which can be loaded.

const Variant& AnyVariant(pbt::Src& src, bool other_types) {
  return Variants()[other_types ? src.idx(kSound) : src.idx(kSound - 2)];
}

const std::vector<std::string> kNames{"a", "b", "lib", "x.y", "so", "dir.so", "libmaliput_x", "UPPER", "sp ace", "d-1"};
const std::vector<std::string> kSuffixes{".txt", ".so.1", "", ".SO", ".s", ".sox", ".so~", ".xso", ".o"};

// A random tree below `dir`. Plugins are copied or linked; returns the plugin files (path -> variant).
void MakeTree(pbt::Src& src, const std::string& dir, int depth, bool plugins,
              std::map<std::string, const Variant*>* found, int* dirs) {
  ++*dirs;
  const int entries = static_cast<int>(src.i(0, depth == 0 ? 5 : 4));
  for (int k = 0; k < entries; ++k) {
    const std::string name = src.pick(kNames) + std::to_string(k);
    switch (src.weighted({plugins ? 5 : 0, 3, depth < 3 ? 3 : 0, 1})) {
      case 0: {
        const Variant& v = AnyVariant(src, true);
        const std::string path = dir + "/" + name + ".so";
        if (src.b(1, 5)) {
          fs::create_symlink(v.file, path);
        } else {
          fs::copy_file(v.file, path);
        }
        (*found)[path] = &v;
        break;
      }
      case 1: {
        const std::string path = dir + "/" + name + src.pick(kSuffixes);
        write_file(path, "not a library");
        break;
      }
      case 2: {
        const std::string sub = dir + "/" + name + (src.b(1, 4) ? ".so" : "");
        fs::create_directory(sub);
        MakeTree(src, sub, depth + 1, plugins, found, dirs);
        break;
      }
      case 3:
        if (!plugins) write_file(dir + "/" + name + ".so", "");
        break;
    }
  }
}

std::string Joined(const std::vector<std::string>& v) {
  std::string r;
  for (size_t k = 0; k < v.size(); ++k) r += (k ? ":" : "") + v[k];
  return r;
}

std::set<int> Versions(const std::map<std::string, const Variant*>& files, const std::string& below,
                       const std::string& id) {
  std::set<int> r;
  for (const auto& f : files) {
    if (f.first.rfind(below + "/", 0) == 0 && f.second->id == id) r.insert(f.second->version);
  }
  return r;
}

// What discovery through the paths of `dirs` must find: for each id the versions which may prevail.
std::map<std::string, std::set<int>> Expected(const std::map<std::string, const Variant*>& files,
                                              const std::vector<std::string>& dirs) {
  std::map<std::string, std::set<int>> r;
  for (const auto& d : dirs) {
    std::string below = d;
    if (below.empty()) continue;
    while (below.size() > 1 && below.back() == '/') below.pop_back();
    for (int k = 0; k < 10; ++k) {
      const std::string id = "id." + std::to_string(k);
      const auto v = Versions(files, below, id);
      if (!v.empty()) r[id] = v;
    }
  }
  return r;
}

MaliputPluginType TypeOf(int version) {
  for (const auto& v : Variants()) {
    if (v.version == version && v.kind == 3) return static_cast<MaliputPluginType>(1);
  }
  return MaliputPluginType::kRoadNetworkLoader;
}

void CheckManager(const MaliputPluginManager& dut, const std::map<std::string, std::set<int>>& expected,
                  std::map<std::string, int>* actual, const std::string& who) {
  const auto list = dut.ListPlugins();
  std::set<std::string> ids, expected_ids;
  for (const auto& p : list) ids.insert(p.first.string());
  for (const auto& p : expected) expected_ids.insert(p.first);
  const auto show = [](const std::set<std::string>& s) {
    std::string r;
    for (const auto& x : s) r += x + " ";
    return r;
  };
  CHECK(ids == expected_ids, "plugins",
        "plugins are " << show(ids) << ", expected " << show(expected_ids) << " | " << who);
  for (int k = 0; k < 10; ++k) {
    const std::string id = "id." + std::to_string(k);
    const MaliputPlugin* p = dut.GetPlugin(MaliputPlugin::Id(id));
    CHECK((p != nullptr) == (expected.count(id) != 0), "get-plugin", id << " | " << who);
    if (!p) continue;
    CHECK(p->GetId() == id, "plugin-id", p->GetId() << " for " << id << " | " << who);
    const int version = p->ExecuteSymbol<int>("Version");
    CHECK(expected.at(id).count(version), "plugin-version",
          "version " << version << " of " << id << " prevails, which is not the last found | " << who);
    CHECK(p->GetType() == TypeOf(version) && list.at(MaliputPlugin::Id(id)) == TypeOf(version), "plugin-type",
          "type of " << id << " | " << who);
    (*actual)[id] = version;
    CHECK(p->ExecuteSymbol<long>("Mix", 12L, -7L) == 12 * 1000 - 70 + version, "symbol",
          "Mix of " << id << " | " << who);
    double d = 0.5;
    CHECK(p->ExecuteSymbol<double*>("Echo", &d) == &d, "symbol", "Echo of " << id << " | " << who);
    MUST_THROW("missing-symbol", p->ExecuteSymbol<int>("NoSuchSymbol"), id);
    if (version % 2) {
      CHECK(p->ExecuteSymbol<int>("OnlyOdd") == version, "symbol", "OnlyOdd of " << id << " | " << who);
    } else {
      MUST_THROW("missing-symbol", p->ExecuteSymbol<int>("OnlyOdd"), id);
    }
  }
  CHECK(dut.GetPlugin(MaliputPlugin::Id("id")) == nullptr, "get-plugin", "a plugin for an unknown id");
}

struct World {
  explicit World(pbt::Src& src) {
    const int roots = static_cast<int>(src.i(0, 3));
    for (int k = 0; k < roots; ++k) {
      const std::string dir = scratch.root + "/r" + std::to_string(k);
      fs::create_directory(dir);
      MakeTree(src, dir, 0, true, &files, &dirs);
      if (src.b(4, 5)) path.push_back(src.b(1, 5) ? dir + "/" : dir);
    }
    // Nested, repeated and bad components.
    const int extra = static_cast<int>(src.i(0, 3));
    for (int k = 0; k < extra; ++k) {
      std::string p;
      switch (src.weighted({2, 2, 1, 1})) {
        case 0:
          p = scratch.root + "/missing" + std::to_string(k);
          break;
        case 1:
          if (path.empty()) continue;
          p = src.pick(path);
          break;
        case 2:
          if (files.empty()) continue;
          p = std::next(files.begin(), static_cast<long>(src.idx(files.size())))->first;  // A file.
          break;
        case 3:
          p = "";
          break;
      }
      path.insert(path.begin() + static_cast<long>(src.idx(path.size() + 1)), p);
    }
  }
  Scratch scratch;
  std::map<std::string, const Variant*> files;
  std::vector<std::string> path;
  int dirs{0};
};

PROBE(P29, plugin_manager, 10000, 100000) {
  World w(src);
  EnvGuard guard("MALIPUT_PLUGIN_PATH");
  const bool unset = src.b(1, 12);
  if (unset) {
    unsetenv("MALIPUT_PLUGIN_PATH");
  } else {
    setenv("MALIPUT_PLUGIN_PATH", Joined(w.path).c_str(), 1);
  }
  std::vector<std::string> who;
  for (const auto& f : w.files) who.push_back(f.first + "=" + f.second->id + "/" + std::to_string(f.second->version));
  NOTE("MALIPUT_PLUGIN_PATH=" << (unset ? "(unset)" : Joined(w.path)) << " files: " << pbt::join(who));
  if (w.files.size() >= 2 || w.dirs >= 2) pbt::nontrivial();
  pbt::label("plugins", w.files.size());

  MaliputPluginManager dut;
  auto expected = unset ? std::map<std::string, std::set<int>>{} : Expected(w.files, w.path);
  std::map<std::string, int> actual;
  const std::string text = Joined(w.path) + " " + pbt::join(who);
  CheckManager(dut, expected, &actual, text);
  for (const auto& a : actual) expected[a.first] = {a.second};  // From now on everything is determined.

  const int ops = static_cast<int>(src.i(0, 5));
  for (int k = 0; k < ops; ++k) {
    const std::string target = w.scratch.root + "/added" + std::to_string(k) + ".so";
    switch (src.weighted({5, 1, 1, 1, 1})) {
      case 0: {
        const Variant& v = AnyVariant(src, true);
        fs::copy_file(v.file, target);
        MUST_NOT_THROW("add", dut.AddPlugin(target), v.id);
        expected[v.id] = {v.version};
        break;
      }
      case 1:
        MUST_THROW("add-empty", dut.AddPlugin(""), "");
        break;
      case 2:
        MUST_THROW("add-missing", dut.AddPlugin(target), "");
        break;
      case 3:
        write_file(target, "not a library");
        MUST_THROW("add-garbage", dut.AddPlugin(target), "");
        break;
      case 4: {
        const Variant& v = Variants()[kSound + src.idx(2)];
        fs::copy_file(v.file, target);
        MUST_THROW("add-incomplete", dut.AddPlugin(target), "a library without " << (v.kind == 1 ? "id" : "type"));
        MUST_THROW("add-incomplete", MaliputPlugin(target), "a library without " << (v.kind == 1 ? "id" : "type"));
        break;
      }
    }
    CheckManager(dut, expected, &actual, text + " then operation " + std::to_string(k));
  }
}

// The process-wide manager of CreateRoadNetwork: each case runs it in a process of its own.
PROBE(P29, create_road_network, 3000, 40000) {
  World w(src);
  if (w.files.size() >= 2 || w.dirs >= 2) pbt::nontrivial();
  const auto expected = Expected(w.files, w.path);
  struct Call {
    std::string id;
    bool make;
    std::map<std::string, std::string> properties;
  };
  std::vector<Call> calls;
  const int n = static_cast<int>(src.i(1, 5));
  for (int k = 0; k < n; ++k) {
    Call c;
    c.id = "id." + std::to_string(src.pick(std::vector<int>{0, 1, 2, 3, 9, 8}));
    c.make = src.b(1, 3);
    const int p = static_cast<int>(src.i(0, 3));
    for (int j = 0; j < p; ++j) c.properties["k" + std::to_string(src.i(0, 4))] = "v " + std::to_string(src.i(0, 9));
    calls.push_back(c);
  }
  NOTE("MALIPUT_PLUGIN_PATH=" << Joined(w.path) << ", " << w.files.size() << " plugins, " << n << " calls");
  int fds[2];
  if (pipe(fds) != 0) return;
  const pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    std::string report;
    try {
      setenv("MALIPUT_PLUGIN_PATH", Joined(w.path).c_str(), 1);
      for (const Call& c : calls) {
        const auto it = expected.find(c.id);
        std::set<int> versions = it == expected.end() ? std::set<int>{} : it->second;
        const bool loader = std::all_of(versions.begin(), versions.end(),
                                        [](int v) { return TypeOf(v) == MaliputPluginType::kRoadNetworkLoader; });
        const bool none = std::none_of(versions.begin(), versions.end(),
                                       [](int v) { return TypeOf(v) == MaliputPluginType::kRoadNetworkLoader; });
        if (!versions.empty() && !loader && !none) continue;  // Which one prevails is not determined.
        std::string sink;
        auto properties = c.properties;
        properties["sink"] = std::to_string(reinterpret_cast<unsigned long long>(&sink));
        if (versions.empty() || none) {
          if (c.make) {
            MUST_THROW("make-unknown", maliput::plugin::MakeRoadNetworkLoader(c.id), c.id);
          } else {
            MUST_THROW("create-unknown", maliput::plugin::CreateRoadNetwork(c.id, properties), c.id);
          }
          continue;
        }
        std::set<std::string> texts;
        std::string list;
        for (const auto& kv : c.properties) list += kv.first + "=" + kv.second + ";";
        for (int v : versions) texts.insert(c.id + "/" + std::to_string(v) + "{" + list + "}~");
        if (c.make) {
          auto l = maliput::plugin::MakeRoadNetworkLoader(c.id);
          CHECK(l != nullptr, "make", c.id);
          const auto params = l->GetDefaultParameters();
          CHECK(params.at("id") == c.id && versions.count(std::stoi(params.at("version"))), "make", c.id);
          (*l)(properties);
        } else {
          maliput::plugin::CreateRoadNetwork(c.id, properties);
        }
        CHECK(texts.count(sink), "create", "the loader got " << sink << ", expected " << *texts.begin());
      }
    } catch (const pbt::Failure& f) {
      report = f.tag + "\n" + f.msg;
    } catch (const std::exception& e) {
      report = std::string("exception\n") + e.what();
    }
    if (write(fds[1], report.data(), report.size()) < 0) _exit(3);
    _exit(0);
  }
  close(fds[1]);
  std::string report;
  char buf[1024];
  ssize_t got;
  while ((got = read(fds[0], buf, sizeof buf)) > 0) report.append(buf, static_cast<size_t>(got));
  close(fds[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "crash-in-child", "wait status " << status);
  if (!report.empty()) pbt::fail(report.substr(0, report.find('\n')), report.substr(report.find('\n') + 1));
}

PROBE(P29, file_listing, 15000, 300000) {
  Scratch scratch;
  std::map<std::string, const Variant*> none;
  int dirs = 0;
  const std::string dir = scratch.root + "/d";
  fs::create_directory(dir);
  MakeTree(src, dir, 0, false, &none, &dirs);
  if (dirs >= 2) pbt::nontrivial();
  // Relative paths too.
  const bool relative = src.b(1, 3);
  const fs::path before = fs::current_path();
  if (relative) fs::current_path(scratch.root);
  struct Back {
    fs::path p;
    ~Back() { fs::current_path(p); }
  } back{before};
  const std::string arg = relative ? "d" : dir;
  std::vector<std::string> all;
  for (const auto& e : fs::recursive_directory_iterator(arg)) {
    if (!e.is_directory()) all.push_back(e.path().string());
  }
  std::optional<std::string> suffix;
  const int kind = static_cast<int>(src.i(0, 4));
  if (kind == 1) suffix = "";
  if (kind == 2) suffix = "so";
  if (kind == 3) suffix = "txt";
  if (kind == 4) suffix = "nosuch";
  std::set<std::string> expected;
  for (const auto& f : all) {
    const std::string name = fs::path(f).filename().string();
    const auto dot = name.rfind('.');
    if (!suffix || suffix->empty() || (dot != std::string::npos && name.substr(dot + 1) == *suffix)) expected.insert(f);
    if (dot != std::string::npos) {
      CHECK(maliput::utility::GetSuffixFromPath(f) == name.substr(dot + 1), "suffix",
            "suffix of " << f << " is " << maliput::utility::GetSuffixFromPath(f));
    }
  }
  const auto got = maliput::utility::GetAllFilePathsFromDirectory(arg, suffix);
  const std::set<std::string> got_set(got.begin(), got.end());
  NOTE(all.size() << " files in " << dirs << " directories, suffix " << suffix.value_or("(none)"));
  CHECK(got.size() == got_set.size(), "listed-twice", "a file is listed twice");
  for (const auto& f : expected) CHECK(got_set.count(f), "file-missing", f << " is not listed");
  for (const auto& f : got) CHECK(expected.count(f), "file-extra", f << " is listed");
  MUST_THROW("no-directory", maliput::utility::GetAllFilePathsFromDirectory(scratch.root + "/nope", suffix), "");
}

PROBE(P29, environment_paths, 3000, 30000) {
  EnvGuard guard("PBT_PATHS");
  const int n = static_cast<int>(src.i(0, 5));
  std::vector<std::string> parts, nonempty;
  for (int k = 0; k < n; ++k) {
    std::string p;
    const int len = static_cast<int>(src.i(0, 6));
    for (int j = 0; j < len; ++j) p += "/ab. c"[src.idx(6)];
    parts.push_back(p);
    if (!p.empty()) nonempty.push_back(p);
  }
  if (n >= 2) pbt::nontrivial();
  if (n == 0 && src.b()) {
    unsetenv("PBT_PATHS");
  } else {
    setenv("PBT_PATHS", Joined(parts).c_str(), 1);
  }
  auto got = maliput::utility::GetAllPathsFromEnvironment("PBT_PATHS");
  if (n == 0) CHECK(got.empty(), "paths", "paths of an empty variable");
  got.erase(std::remove(got.begin(), got.end(), ""), got.end());
  NOTE(Joined(parts));
  CHECK(got == nonempty, "paths", "'" << Joined(parts) << "' gives '" << Joined(got) << "'");
}

// ---------------------------------------------------------------------------------------------------------------------
// P34
// ---------------------------------------------------------------------------------------------------------------------

// Every entry below `root`, with "/" after directories.
std::set<std::string> Tree(const std::string& root) {
  std::set<std::string> r;
  for (const auto& e : fs::recursive_directory_iterator(root)) {
    r.insert(e.path().string().substr(root.size()) + (e.is_directory() ? "/" : ""));
  }
  return r;
}

PROBE(P34, operations, 40000, 600000) {
  Scratch scratch;
  const fs::path before = fs::current_path();
  fs::current_path(scratch.root);
  struct Back {
    fs::path p;
    ~Back() { fs::current_path(p); }
  } back{before};
  // The model: directories and files (with contents) by their path below the scratch directory.
  std::set<std::string> dirs{""};
  std::map<std::string, std::string> files;
  const auto parent = [](const std::string& p) {
    const auto k = p.rfind('/');
    return k == std::string::npos ? std::string() : p.substr(0, k);
  };
  const auto random_path = [&] {
    std::string p;
    const int n = static_cast<int>(src.i(1, 4));
    for (int k = 0; k < n; ++k)
      p += (k ? "/" : "") + std::string(1, "abcd"[src.idx(4)]) + (src.b(1, 3) ? "long.x" : "");
    return p;
  };
  const auto existing = [&]() -> std::string {
    std::vector<std::string> v(dirs.begin(), dirs.end());
    for (const auto& f : files) v.push_back(f.first);
    return src.pick(v);
  };
  std::vector<std::string> log;
  const int ops = static_cast<int>(src.i(1, 15));
  int made = 0;
  for (int k = 0; k < ops; ++k) {
    std::string p = src.b(2, 3) ? random_path() : existing();
    if (p.empty()) p = "a";
    const bool absolute = src.b();
    const std::string text = (absolute ? scratch.root + "/" : std::string()) + p;
    // A path, in the ways to make it.
    Path path;
    switch (src.weighted({2, 1, 1, 1})) {
      case 0:
        path = Path(text);
        break;
      case 1:
        path.set_path(text + "/");
        CHECK(path.get_path() == text, "set-path", path.get_path() << " from " << text << "/");
        break;
      case 2: {
        path.set_path(scratch.root);
        path.append(p);
        CHECK(path.get_path() == scratch.root + "/" + p, "append", path.get_path() << " from " << p);
        break;
      }
      case 3: {
        path.set_path("whatever");
        path.append(scratch.root + "/" + p + "/");
        CHECK(path.get_path() == scratch.root + "/" + p, "append-absolute", path.get_path() << " from " << p);
        break;
      }
    }
    const bool is_dir = dirs.count(p) != 0;
    const bool is_file = files.count(p) != 0;
    CHECK(path.is_directory() == is_dir, "is-directory", path.get_path());
    CHECK(path.is_file() == is_file, "is-file", path.get_path());
    CHECK(path.exists() == (is_dir || is_file), "exists", path.get_path());
    CHECK(path.is_absolute() == ((is_dir || is_file) && path.get_path()[0] == '/'), "is-absolute", path.get_path());
    bool can = false;
    switch (src.weighted({3, 4, 2, 2, 3, 3})) {
      case 0:
        log.push_back("mkdir " + text);
        can = !is_dir && !is_file && dirs.count(parent(p));
        CHECK(Filesystem::create_directory(path) == can, "create", pbt::join(log));
        if (can) dirs.insert(p), ++made;
        break;
      case 1: {
        log.push_back("mkdir-p " + text);
        can = !is_file;
        for (std::string q = parent(p); !q.empty(); q = parent(q)) can = can && !files.count(q);
        // mkdir -p makes what it can before it fails.
        std::vector<std::string> chain;
        for (std::string q = p; !q.empty(); q = parent(q)) chain.insert(chain.begin(), q);
        CHECK(Filesystem::create_directory_recursive(path) == can, "create-recursive",
              "expected " << (can ? "success" : "failure") << " of " << pbt::join(log));
        for (const auto& q : chain) {
          if (files.count(q)) break;
          if (dirs.insert(q).second) ++made;
        }
        break;
      }
      case 2: {
        log.push_back("rmdir " + text);
        can = is_dir;
        for (const auto& d : dirs) can = can && d.rfind(p + "/", 0) != 0;
        for (const auto& f : files) can = can && f.first.rfind(p + "/", 0) != 0;
        CHECK(Filesystem::remove_directory(path) == can, "remove-directory", pbt::join(log));
        if (can) dirs.erase(p);
        break;
      }
      case 3:
        log.push_back("rm " + text);
        CHECK(Filesystem::remove_file(path) == is_file, "remove-file", pbt::join(log));
        files.erase(p);
        break;
      case 4: {
        log.push_back("write " + text);
        if (is_dir || !dirs.count(parent(p))) break;
        std::string content;
        const int len = static_cast<int>(src.weighted({1, 3, 2, 1}));
        const int n = len == 0   ? 0
                      : len == 1 ? static_cast<int>(src.i(1, 9))
                      : len == 2 ? static_cast<int>(src.i(10, 300))
                                 : 5000;
        uint64_t state = src.draw(1u << 20);
        const bool text_only = src.b();
        for (int j = 0; j < n; ++j) {
          state = state * 6364136223846793005ull + 1442695040888963407ull;
          const unsigned char c = static_cast<unsigned char>(state >> 56);
          content += static_cast<char>(text_only ? "ab \n\r\t\xff\x1a"[c % 8] : c);
        }
        write_file(text, content);
        files[p] = content;
        ++made;
        break;
      }
      case 5: {
        log.push_back("read " + text);
        std::string got = "before";
        const bool ok = Filesystem::read_as_string(path, got);
        CHECK(ok == is_file, "read", "reading " << (is_file ? "failed: " : "succeeded: ") << pbt::join(log));
        if (is_file) {
          CHECK(got == files.at(p), "read-content", "read " << got.size() << " bytes of " << files.at(p).size());
        }
        break;
      }
    }
    std::set<std::string> expected;
    for (const auto& d : dirs) {
      if (!d.empty()) expected.insert("/" + d + "/");
    }
    for (const auto& f : files) expected.insert("/" + f.first);
    CHECK(Tree(scratch.root) == expected, "side-effect", "the tree differs after " << pbt::join(log));
    if (is_file && files.count(p))
      CHECK(real_read(text) == files.at(p), "side-effect", "content changed: " << pbt::join(log));
  }
  CHECK(Filesystem::get_cwd().get_path() == fs::current_path().string(), "cwd", Filesystem::get_cwd().get_path());
  NOTE(pbt::join(log));
  if (made >= 2) pbt::nontrivial();
}

PROBE(P34, environment, 1000, 10000) {
  const std::vector<std::string> names{"TMPDIR", "TEMPDIR", "TMP", "TEMP"};
  std::vector<std::unique_ptr<EnvGuard>> guards;
  std::string expected = "/tmp";
  bool done = false;
  for (const auto& n : names) {
    guards.push_back(std::make_unique<EnvGuard>(n));
    if (src.b(1, 3)) {
      const std::string v = src.pick(std::vector<std::string>{"/x", "/x/y/", "", "/", "rel", "a"});
      setenv(n.c_str(), v.c_str(), 1);
      if (!done) {
        expected = v.size() > 1 && v.back() == '/' ? v.substr(0, v.size() - 1) : v;
        done = true;
      }
      CHECK(Filesystem::get_env_path(n) == v, "env", n);
    } else {
      unsetenv(n.c_str());
      CHECK(Filesystem::get_env_path(n).empty(), "env", n);
    }
  }
  Path p;
  p.set_as_temp();
  CHECK(p.get_path() == expected, "temp", p.get_path() << " instead of " << expected);
  if (done) pbt::nontrivial();
}

}  // namespace
