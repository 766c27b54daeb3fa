// Executes scenarios on the C++ header (generated or committed) and records what happened.
//
// driver JOBS OUT   (JOBS: one JSON object {"id","dir","snaps","ops"} per line)
//
// The C++ twin of driver.py: same scenarios, same records, plus the calls that exist in C++ only.
// Every scenario runs in a forked child whose working directory is its own scratch directory.
#include WISARDPKG_HEADER
#include <atomic>
#include <csignal>
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace wp = wisardpkg;
using json = nlohmann::json;
using std::string;
using std::vector;

typedef vector<int> ints;
typedef vector<ints> images;

static const long CPU_LIMIT = 20, WALL_LIMIT = 120, PATIENCE = 3, FSIZE = 64L << 20;

struct HarnessError : std::runtime_error {
  HarnessError(const string& s) : std::runtime_error(s) {}
};

static string slurp(const string& name) {
  std::ifstream f(name, std::ios::binary);
  if (!f.is_open()) throw std::runtime_error("cannot read " + name);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static std::map<string, string> listing() {
  std::map<string, string> out;
  DIR* d = opendir(".");
  while (dirent* e = readdir(d)) {
    struct stat st;
    if (stat(e->d_name, &st) == 0 && S_ISREG(st.st_mode)) out[e->d_name] = slurp(e->d_name);
  }
  closedir(d);
  return out;
}

static void setFsize(long lim) {
  rlimit r = {(rlim_t)lim, (rlim_t)FSIZE};
  setrlimit(RLIMIT_FSIZE, &r);
}
struct FsizeGuard {
  bool on;
  FsizeGuard(const json& op, long largest = 0) : on(op.count("fsize") && !op["fsize"].is_null()) {
    if (on) setFsize(op["fsize"].is_object() ? largest + op["fsize"]["rel"].get<long>() : op["fsize"].get<long>());
  }
  ~FsizeGuard() {
    if (on) setFsize(FSIZE);
  }
};

static void dataFiles(const json& v, vector<string>& out) {
  if (v.is_object() || v.is_array()) {
    for (auto& x : v) dataFiles(x, out);
  } else if (v.is_string()) {
    string s = v.get<string>();
    if (s.size() > 6 && s.substr(s.size() - 6) == ".wdpkg") out.push_back(s);
  }
}

static json options(const json& op) {
  json k = op.count("opt") ? op["opt"] : json::object();
  if (k.count("activationDegree"))
    k["activationDegree"] = k["activationDegree"][0].get<double>() / k["activationDegree"][1].get<double>();
  return k;
}

static wp::BinInput bin(const json& x) {
  return wp::BinInput(x.get<vector<short>>());
}

static json bytes(const string& s) {
  json a = json::array();
  for (unsigned char c : s) a.push_back((int)c);
  return a;
}
static string text(const json& a) {
  string s;
  for (auto& c : a) s += (char)c.get<int>();
  return s;
}
template <typename M>
static json pairs(const M& m) {
  json a = json::array();
  for (auto& kv : m) a.push_back({kv.first, kv.second});
  return a;
}

// The classes below the public ones are driven too, unless the tree has rearranged them.
#ifndef NO_INNER
#define INNER 1
#endif

struct Object {
  std::unique_ptr<wp::Discriminator> D;
  std::unique_ptr<wp::Wisard> W;
  std::unique_ptr<wp::ClusWisard> C;
  std::unique_ptr<wp::BinInput> B;
  std::unique_ptr<wp::DataSet> S;
  std::unique_ptr<wp::RAMDataHandle> H;
  std::unique_ptr<wp::Synthesizer> Y;
  std::unique_ptr<wp::KernelCanvas> K;
#ifdef INNER
  std::unique_ptr<wp::RAM> R;
  std::unique_ptr<wp::Cluster> U;
  json about;  // of a cluster: what its text lacks
#endif
};

template <typename T>
static string saveText(T& o, const json& op) {
  string mode = op["mode"];
  if (mode == "config") return o.jsonConfig();
  if (mode == "file") return op.count("prefix") ? o.json(true, op["prefix"].get<string>()) : o.json(true);
  int how = op.value("how", 0);
  return how == 0 ? o.json() : how == 1 ? o.json(false) : o.json(false, op.value("prefix", string("x")));
}

struct Run {
  json job;
  std::map<string, std::shared_ptr<Object>> objs;
  std::mutex table;  // of objs: calls may come from several threads
  long largest = 0;  // size of the largest data file of the last snapshot

  string snapfile(const string& s) { return job["snaps"].get<string>() + "/" + s + ".txt"; }
  Object& at(const json& id) {
    std::lock_guard<std::mutex> g(table);
    auto it = objs.find(id.get<string>());
    if (it == objs.end()) throw std::runtime_error("no such object");
    return *it->second;
  }
  void put(const json& op, std::shared_ptr<Object> o) {
    std::lock_guard<std::mutex> g(table);
    objs[op["o"].get<string>()].swap(o);
  }

  string jsonOf(Object& b) {
    if (b.D) return b.D->json();
    if (b.W) return b.W->json();
    if (b.C) return b.C->json();
#ifdef INNER
    if (b.U) return b.U->getJson(false, "").dump();
#endif
    throw HarnessError("no json");
  }

  json act(const json& op) {
    string t = op["op"];
    char fam = t[0];
    string m = t.size() > 2 && t[1] == '.' ? t.substr(2) : "";
    if (m != "") {
      switch (fam) {
        case 'D': return disc(m, op);
        case 'W': return wisard(m, op);
        case 'C': return clus(m, op);
        case 'B': return bininput(m, op);
        case 'S': return dataset(m, op);
        case 'H': return handle(m, op);
        case 'Y': return synth(m, op);
        case 'K': return canvas(m, op);
#ifdef INNER
        case 'R': return ram(m, op);
        case 'U': return cluster(m, op);
        case 'V': return decision(m, op);
#endif
        case 'E':
          if (m == "encode") return bytes(wp::Base64::encode(text(op["t"])));
          if (m == "decode") return bytes(wp::Base64::decode(text(op["t"])));
      }
    }
    if (t == "save") {
      Object& b = at(op["o"]);
      string s;
      {
        FsizeGuard g(op, largest);
        s = b.D ? saveText(*b.D, op) : b.W ? saveText(*b.W, op) : saveText(*b.C, op);
      }
      std::ofstream f(snapfile(op["s"]), std::ios::binary);
      f << s;
      f.close();
      if (f.fail()) throw HarnessError("snapshot not written");
      if (op["mode"] == "file") {
        vector<string> names;
        dataFiles(json::parse(s), names);
        largest = 0;
        for (auto& n : names) {
          struct stat st;
          if (stat(n.c_str(), &st) == 0 && st.st_size > largest) largest = st.st_size;
        }
      }
      return s;
    }
    if (t == "load") {
      string s = slurp(snapfile(op["s"])), k = op["k"];
      auto o = std::make_shared<Object>();
      if (k == "D") o->D.reset(new wp::Discriminator(s));
      else if (k == "W") o->W.reset(new wp::Wisard(s));
      else o->C.reset(new wp::ClusWisard(s));
      put(op, o);
      return nullptr;
    }
    if (t == "rmfile") {
      vector<string> names;
      dataFiles(json::parse(slurp(snapfile(op["s"]))), names);
      for (auto& n : names)
        if (n.find('/') == string::npos) unlink(n.c_str());
      return nullptr;
    }
    if (t == "copy") {
      Object& p = at(op["p"]);
      auto o = std::make_shared<Object>();
      bool assign = op.value("how", string()) == "assign";
#define COPY(F, T, ...) \
  if (p.F) { \
    if (assign) { o->F.reset(new wp::T(__VA_ARGS__)); *o->F = *p.F; } else o->F.reset(new wp::T(*p.F)); \
  }
      COPY(D, Discriminator, 2, 4, json::object())
      COPY(W, Wisard, 2)
      COPY(C, ClusWisard, 2, 0.5, 2, 2)
      COPY(B, BinInput, (wp::index_size_t)3)
      COPY(S, DataSet)
      COPY(H, RAMDataHandle, string(""))
#ifdef INNER
      COPY(R, RAM)
      COPY(U, Cluster)
      o->about = p.about;
#endif
      put(op, o);
      return nullptr;
    }
    if (t == "del") {
      std::shared_ptr<Object> gone;
      put(op, gone);
      std::lock_guard<std::mutex> g(table);
      objs.erase(op["o"].get<string>());
      return nullptr;
    }
    if (t == "getsizeof") {
      Object& b = at(op["o"]);
      return b.D ? b.D->getsizeof() : b.W ? b.W->getsizeof() : b.C->getsizeof();
    }
    throw HarnessError("unknown op " + t);
  }

#ifdef INNER
  static ints positions(wp::RAM& r) {
    images m(2);
    r.setMapping(m, 1);
    return m[1];
  }

  json ram(const string& m, const json& op) {
    if (m == "new" || m == "idx" || m == "again") {
      auto o = std::make_shared<Object>();
      if (m == "again") {
        wp::RAM& p = *at(op["p"]).R;
        json c = p.getConfig();
        c["addresses"] = positions(p);
        c["data"] = p.getData();
        o->R.reset(new wp::RAM(c));
      } else {
        bool zero = op["iz"];
        int base = op["base"];
        bool plain = !zero && base == 2;
        if (m == "idx" && plain) o->R.reset(new wp::RAM(op["idx"].get<ints>()));
        else if (m == "idx") o->R.reset(new wp::RAM(op["idx"].get<ints>(), zero, base));
        else if (plain) o->R.reset(new wp::RAM(op["a"].get<int>(), op["n"].get<int>()));
        else o->R.reset(new wp::RAM(op["a"].get<int>(), op["n"].get<int>(), zero, base));
      }
      put(op, o);
      return positions(*o->R);
    }
    wp::RAM& o = *at(op["o"]).R;
    bool b = op.value("how", string()) == "bin";
    if (m == "train") {
      if (b) o.train(bin(op["x"]));
      else o.train(op["x"].get<ints>());
      return nullptr;
    }
    if (m == "untrain") {
      o.untrain(op["x"].get<ints>());
      return nullptr;
    }
    if (m == "vote") {
      json out = json::array();
      for (auto& x : op["xs"]) out.push_back(b ? o.getVote(bin(x)) : o.getVote(x.get<ints>()));
      return out;
    }
    if (m == "mental") return o.getMentalImage();
    if (m == "size") return o.getAddressSize();
    if (m == "state") {
      json c = o.getConfig();
      c["mapping"] = positions(o);
      c["data"] = o.getData();
      return c;
    }
    throw HarnessError("unknown op R." + m);
  }

  json cluster(const string& m, const json& op) {
    if (m == "new" || m == "again") {
      auto o = std::make_shared<Object>();
      if (m == "again") {
        Object& p = at(op["p"]);
        json c = p.U->getJson(false, "");
        c.merge_patch(p.about);
        o->about = p.about;
        o->U.reset(new wp::Cluster(c));
      } else {
        float ms = op["ms"].get<double>() / op["msden"].get<double>();
        o->about = {{"addressSize", op["a"]}, {"minScore", ms}, {"threshold", op["th"]}, {"discriminatorsLimit", op["lim"]},
                    {"completeAddressing", op["complete"]}, {"ignoreZero", op["iz"]}, {"base", op["base"]}};
        o->U.reset(new wp::Cluster(op["n"].get<int>(), op["a"].get<int>(), ms, op["th"].get<int>(), op["lim"].get<int>(),
                                   op["complete"].get<bool>(), op["iz"].get<bool>(), op["base"].get<int>()));
      }
      put(op, o);
      return nullptr;
    }
    wp::Cluster& o = *at(op["o"]).U;
    bool b = op.value("how", string()) == "bin";
    if (m == "train") {
      if (b) o.train(bin(op["x"]));
      else o.train(op["x"].get<ints>());
      return nullptr;
    }
    if (m == "classify") {
      json out = json::array();
      for (auto& x : op["xs"]) out.push_back(b ? o.classify(bin(x)) : o.classify(x.get<ints>()));
      return out;
    }
    if (m == "mentals") return o.getMentalImages();
    if (m == "sizes") return {(int)o.getNumberOfDiscriminators(), o.getSize()};
    if (m == "score") return o.getScore(op["votes"].get<ints>());
    if (m == "state") return o.getJson(false, "").dump();
    throw HarnessError("unknown op U." + m);
  }

  json decision(const string& m, const json& op) {
    if (m == "scores") {
      std::map<string, ints> votes;
      for (auto& v : op["votes"]) votes[v[0].get<string>()] = v[1].get<ints>();
      bool bleach = op["bleach"];
      int conf = op["conf"];
      if (conf == 1 && op.value("how", 0) == 0) return pairs(wp::Bleaching::make(votes, bleach));
      return pairs(wp::Bleaching::make(votes, bleach, op.value("how", 0) == 2, conf));
    }
    std::map<string, int> s;
    int best = 0;
    for (auto& v : op["scores"]) best = std::max(best, s[v[0].get<string>()] = v[1].get<int>());
    if (m == "winner") return bytes(wp::Bleaching::getBiggestCandidate(s));
    if (m == "lead") return wp::Bleaching::getConfidence(s, best);
    throw HarnessError("unknown op V." + m);
  }
#endif

  json disc(const string& m, const json& op) {
    if (m == "bare") {
      auto o = std::make_shared<Object>();
      if (op["n"].get<int>() == 0) o->D.reset(new wp::Discriminator());
      else o->D.reset(new wp::Discriminator(op["n"].get<int>()));
      put(op, o);
      return nullptr;
    }
    if (m == "new") {
      auto o = std::make_shared<Object>();
      int a = op["a"].get<int>(), n = op["n"].get<int>();
      json k = options(op);
      bool direct = true;
      for (auto& kv : k.items())
        if (kv.key() != "ignoreZero" && kv.key() != "completeAddressing" && kv.key() != "base" && kv.key() != "indexes" && kv.key() != "mapping") direct = false;
      if (direct && (a + n) % 2) {  // every other configuration through the constructors without options
        bool zero = k.value("ignoreZero", false), complete = k.value("completeAddressing", true);
        int base = k.value("base", 2);
        if (k.count("mapping") && k["mapping"].size()) o->D.reset(new wp::Discriminator(k["mapping"].get<images>(), n, zero, base));
        else if (k.count("indexes") && k["indexes"].size()) o->D.reset(new wp::Discriminator(k["indexes"].get<ints>(), a, n, zero, base));
        else if (k.empty()) o->D.reset(new wp::Discriminator(a, n));
        else o->D.reset(new wp::Discriminator(a, n, zero, complete, base));
      } else o->D.reset(new wp::Discriminator(a, n, k));
      put(op, o);
      return nullptr;
    }
    wp::Discriminator& o = *at(op["o"]).D;
    string how = op.value("how", string("one"));
    if (m == "train") {
      if (how == "list") o.train(op["xs"].get<images>());
      else
        for (auto& x : op["xs"]) {
          if (how == "bin") o.train(bin(x));
          else o.train(x.get<ints>());
        }
      return nullptr;
    }
    if (m == "trainrep") {
      ints x = op["x"].get<ints>();
      for (int k = op["times"].get<int>(); k > 0; k--) o.train(x);
      return nullptr;
    }
    if (m == "untrain" || m == "overuntrain") {
      o.untrain(op["x"].get<ints>());
      return nullptr;
    }
    if (m == "classify") {
      json out = json::array();
      for (auto& x : op["xs"]) out.push_back(how == "bin" ? o.classify(bin(x)) : o.classify(x.get<ints>()));
      return out;
    }
    if (m == "mental") return o.getMentalImage();
    if (m == "sizes") return {o.getNumberOfTrainings(), o.getNumberOfRAMS()};
    if (m == "state") return o.json();
    throw HarnessError("unknown op D." + m);
  }

  json wisard(const string& m, const json& op) {
    if (m == "new") {
      auto o = std::make_shared<Object>();
      json k = options(op);
      if (k.empty()) o->W.reset(new wp::Wisard(op["a"].get<int>()));
      else o->W.reset(new wp::Wisard(op["a"].get<int>(), k));
      put(op, o);
      return nullptr;
    }
    wp::Wisard& o = *at(op["o"]).W;
    if (m == "train") {
      o.train(op["xs"].get<images>(), op["ys"].get<vector<string>>());
      return nullptr;
    }
    if (m == "trainrep") {
      size_t k = op["times"].get<size_t>();
      o.train(images(k, op["x"].get<ints>()), vector<string>(k, op["y"].get<string>()));
      return nullptr;
    }
    if (m == "trainset") {
      o.train(*at(op["d"]).S);
      return nullptr;
    }
    if (m == "untrain" || m == "overuntrain") {
      if (op.value("how", string()) == "one")
        for (size_t i = 0; i < op["xs"].size(); i++) o.leaveOneOut(op["xs"][i].get<ints>(), op["ys"][i].get<string>());
      else o.leaveMoreOut(op["xs"].get<images>(), op["ys"].get<vector<string>>());
      return nullptr;
    }
    if (m == "classify") return o.classify(op["xs"].get<images>());
    if (m == "classifyset") return o.classify(*at(op["d"]).S);
    if (m == "mental") return pairs(o.getMentalImages());
    if (m == "state") return o.json();
    throw HarnessError("unknown op W." + m);
  }

  json clus(const string& m, const json& op) {
    if (m == "new") {
      auto o = std::make_shared<Object>();
      json k = options(op);
      float ms = op["ms"].get<double>() / op["msden"].get<double>();
      int a = op["a"], th = op["th"], lim = op["lim"];
      if (k.empty()) o->C.reset(new wp::ClusWisard(a, ms, th, lim));
      else o->C.reset(new wp::ClusWisard(a, ms, th, lim, k));
      put(op, o);
      return nullptr;
    }
    wp::ClusWisard& o = *at(op["o"]).C;
    if (m == "train") {
      o.train(op["xs"].get<images>(), op["ys"].get<vector<string>>());
      return nullptr;
    }
    if (m == "trainsemi") {
      std::map<int, string> given;
      for (auto& g : op["given"]) given[g[0].get<int>()] = g[1].get<string>();
      o.train(op["xs"].get<images>(), given);
      return nullptr;
    }
    if (m == "trainuns") {
      o.trainUnsupervised(op["xs"].get<images>());
      return nullptr;
    }
    if (m == "classify") return o.classify(op["xs"].get<images>());
    if (m == "classifyuns") return o.classifyUnsupervised(op["xs"].get<images>());
    if (m == "mental") return o.getMentalImage(op["y"].get<string>());
    if (m == "mentals") return pairs(o.getMentalImages());
    if (m == "state") return o.json();
    throw HarnessError("unknown op C." + m);
  }

  json bininput(const string& m, const json& op) {
    if (m == "new" || m == "bits" || m == "fromdata" || m == "fromtext") {
      auto o = std::make_shared<Object>();
      if (m == "new" && op.count("default")) o->B.reset(new wp::BinInput());
      else if (m == "new") o->B.reset(new wp::BinInput((wp::index_size_t)op["n"].get<long>()));
      else if (m == "bits") o->B.reset(new wp::BinInput(op["x"].get<vector<short>>()));
      else if (m == "fromdata") o->B.reset(new wp::BinInput(at(op["p"]).B->data()));
      else o->B.reset(new wp::BinInput(op["t"].get<string>()));
      put(op, o);
      return nullptr;
    }
    wp::BinInput& o = *at(op["o"]).B;
    if (m == "set") {
      o.set(op["i"].get<long>(), op["v"].get<int>());
      return nullptr;
    }
    if (m == "get") {
      long i = op["i"];
      return op.value("how", string()) == "item" ? o[i] : o.get(i);
    }
    if (m == "all") {
      json out = json::array();
      for (wp::index_size_t i = 0; i < o.size(); i++) out.push_back(o.get(i));
      return out;
    }
    if (m == "size") return (long)o.size();
    if (m == "data") return o.data();
    throw HarnessError("unknown op B." + m);
  }

  json dataset(const string& m, const json& op) {
    if (m == "new" || m == "load") {
      auto o = std::make_shared<Object>();
      if (m == "new") o->S.reset(new wp::DataSet());
      else o->S.reset(new wp::DataSet(op["s"].get<string>() + (op["named"].get<bool>() ? string(".wpkds") : op.value("ext", string(".txt")))));
      put(op, o);
      return nullptr;
    }
    wp::DataSet& o = *at(op["o"]).S;
    if (m == "add" || m == "addbin") {
      string y = op["y"];
      bool plain = y == "" && op.value("how", string()) != "label";
      if (m == "addbin") {
        if (plain) o.add(*at(op["b"]).B);
        else o.add(*at(op["b"]).B, y);
      } else {
        vector<short> x = op["x"].get<vector<short>>();
        if (plain) o.add(x);
        else o.add(x, y);
      }
      return nullptr;
    }
    if (m == "get") {
      wp::BinInput b = op.value("how", string()) == "item" ? o[op["i"].get<int>()] : o.get(op["i"].get<int>());
      json out = json::array();
      for (wp::index_size_t i = 0; i < b.size(); i++) out.push_back(b.get(i));
      return out;
    }
    if (m == "label") return bytes(o.getLabel(op["i"].get<long>()));
    if (m == "size") return (long)o.size();
    if (m == "save") {
      FsizeGuard g(op);
      o.save(op["writable"].get<bool>() || g.on ? op["s"].get<string>() : "nodir/" + op["s"].get<string>());
      return nullptr;
    }
    throw HarnessError("unknown op S." + m);
  }

  json handle(const string& m, const json& op) {
    if (m == "from" || m == "empty" || m == "fromdata" || m == "fromram" || m == "fromfile" || m == "fromtext") {
      auto o = std::make_shared<Object>();
      string t;
      if (m == "from") {
        json c = json::parse(jsonOf(at(op["p"])));
        t = op["k"] == "D" ? c["data"].get<string>() : c["classes"][op["y"].get<string>()]["data"].get<string>();
      } else if (m == "fromdata") t = at(op["p"]).H->data();
      else if (m == "fromram") t = at(op["p"]).H->data(op["r"].get<int>());
      else if (m == "fromtext") t = op["t"].get<string>();
      else if (m == "fromfile") t = json::parse(slurp(snapfile(op["s"])))["data"].get<string>();
      o->H.reset(new wp::RAMDataHandle(t));
      put(op, o);
      if (m == "from") return t;
      if (m == "fromfile") return slurp(t);
      return nullptr;
    }
    if (m == "load" || m == "read") {
      auto o = std::make_shared<Object>();
      o->H.reset(new wp::RAMDataHandle(op["s"].get<string>() + ".wdpkg"));
      put(op, o);
      return nullptr;
    }
    wp::RAMDataHandle& o = *at(op["o"]).H;
    if (m == "save") {
      FsizeGuard g(op);
      o.save(op["writable"].get<bool>() || g.on ? op["s"].get<string>() : "nodir/" + op["s"].get<string>());
      return nullptr;
    }
    if (m == "set") {
      o.set(op["r"].get<int>(), op["a"].get<unsigned long long>(), op["v"].get<int>());
      return nullptr;
    }
    if (m == "get") return o.get(op["r"].get<int>(), op["a"].get<unsigned long long>());
    if (m == "ram") {
      json out = json::array();
      auto ram = o.get(op["r"].get<int>());
      for (auto& kv : ram) out.push_back({std::to_string(kv.first), kv.second});
      return out;
    }
    if (m == "data") return o.data();
    if (m == "dataram") return o.data(op["r"].get<int>());
    if (m == "compare") return o.compare(*at(op["p"]).H);
    throw HarnessError("unknown op H." + m);
  }

  json synth(const string& m, const json& op) {
    if (m == "new") {
      auto o = std::make_shared<Object>();
      o->Y.reset(new wp::Synthesizer(op["img"].get<ints>()));
      put(op, o);
      return nullptr;
    }
    if (m == "from") {
      auto o = std::make_shared<Object>();
      Object& p = at(op["p"]);
      string y = op.value("y", string());
      o->Y.reset(new wp::Synthesizer(p.D ? p.D->getMentalImage() : p.W ? p.W->getMentalImages().at(y) : p.C->getMentalImage(y).at(0)));
      put(op, o);
      return nullptr;
    }
    wp::Synthesizer& o = *at(op["o"]).Y;
    if (m == "make") return o.make();
    if (m == "makemany") {
      ints cs(op["len"].get<int>());
      for (int k = op["n"].get<int>(); k > 0; k--) {
        ints v = o.make();
        if (v.size() != cs.size()) return v;
        for (size_t i = 0; i < v.size(); i++) cs[i] += v[i];
      }
      return cs;
    }
    throw HarnessError("unknown op Y." + m);
  }

  json canvas(const string& m, const json& op) {
    if (m == "new") {
      auto o = std::make_shared<Object>();
      json k = options(op);
      if (k.empty()) o->K.reset(new wp::KernelCanvas(op["dim"].get<int>(), op["n"].get<int>()));
      else o->K.reset(new wp::KernelCanvas(op["dim"].get<int>(), op["n"].get<int>(), k));
      put(op, o);
#ifdef WISARDPKG_VERIF
      return o->K->verifKernels();
#else
      return nullptr; // the hook does not build: hidden
#endif
    }
    if (m == "transform") {
      vector<vector<double>> seq;
      for (auto& p : op["seq"]) {
        vector<double> q;
        for (size_t j = 0; j < p.size(); j++) {
          double v = p[j].get<double>();
          if (op.count("unit") && !op["unit"].is_null()) v = v * op["unit"][j][0].get<double>() + op["unit"][j][1].get<double>();
          q.push_back(v);
        }
        seq.push_back(q);
      }
      return at(op["o"]).K->transform(seq);
    }
    throw HarnessError("unknown op K." + m);
  }

  void run(int fd) {
    if (chdir(job["dir"].get<string>().c_str()) != 0) throw HarnessError("chdir");
    rlimit cpu = {(rlim_t)CPU_LIMIT, (rlim_t)CPU_LIMIT + 5}, core = {0, 0};
    setrlimit(RLIMIT_CPU, &cpu);
    alarm(WALL_LIMIT);
    setrlimit(RLIMIT_CORE, &core);
    setFsize(FSIZE);
    signal(SIGXFSZ, SIG_IGN);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    bool watch = job.value("files", false);
    const json& ops = job["ops"];
    for (size_t i = 0; i < ops.size();) {
      size_t end = i;  // calls with lanes that follow each other: every lane is a thread
      while (end < ops.size() && ops[end].count("lane")) end++;
      if (end == i) {
        json e = step(ops[i], i, watch);
        i++;
        send(fd, e);
        continue;
      }
      vector<json> es(end - i);
      std::map<int, vector<size_t>> lanes;
      for (size_t k = i; k < end; k++) lanes[ops[k]["lane"].get<int>()].push_back(k);
      std::atomic<int> waiting((int)lanes.size());
      std::mutex failures;
      string failure;
      vector<std::thread> threads;
      for (auto& lane : lanes)
        threads.emplace_back([&, this] {
          try {
            waiting--;
            while (waiting > 0) std::this_thread::yield();
            for (size_t k : lane.second) es[k - i] = step(ops[k], k, false);
          } catch (std::exception& x) {
            std::lock_guard<std::mutex> g(failures);
            failure = x.what();
          }
        });
      for (auto& t : threads) t.join();
      if (!failure.empty()) throw HarnessError(failure);
      for (auto& e : es) send(fd, e);
      i = end;
    }
  }

  static void send(int fd, const json& e) {
    string line = e.dump() + "\n";
    for (size_t k = 0; k < line.size();) {
      ssize_t w = write(fd, line.data() + k, line.size() - k);
      if (w <= 0) throw HarnessError("write");
      k += w;
    }
  }

  json step(const json& op, size_t i, bool watch) {
    json e = {{"i", i}};
    std::map<string, string> before;
    if (watch) before = listing();
    try {
      e["r"] = act(op);
      // the same question again and again: whoever answers differently once is not believed
      for (int n = op.value("rep", 1); n > 1; n--)
        if (act(op) != e["r"]) {
          e["r"] = "unstable";
          break;
        }
      e["ok"] = true;
    } catch (HarnessError&) {
      throw;
    } catch (std::exception& x) {
      e["ok"] = false;
      e["msg"] = bytes(string(x.what()).substr(0, 200));
    }
    if (watch && op["op"] != "rmfile") {
      if (op["op"] == "S.save") before.erase(op["s"].get<string>() + ".wpkds");
      if (op["op"] == "H.save") before.erase(op["s"].get<string>() + ".wdpkg");
      auto after = listing();
      int n = 0;
      for (auto& kv : before) n += !(after.count(kv.first) && after[kv.first] == kv.second);
      e["fch"] = n;
    }
    if (op.count("p") && op["p"].is_number()) {
      try {
        e["picked"] = jsonOf(at(op["o"]));
      } catch (HarnessError&) {
        throw;
      } catch (std::exception& x) {
        if (string(x.what()) != "no such object") e["picked"] = nullptr;
      }
    }
    return e;
  }
};

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  std::ifstream jobs(argv[1]);
  std::ofstream log(argv[2], std::ios::binary);
  string line;
  int died = 0;
  while (std::getline(jobs, line)) {
    if (line.empty()) continue;
    Run r;
    r.job = json::parse(line);
    if (died >= PATIENCE) {
      log << "{\"id\":" << r.job["id"].dump() << ",\"end\":\"skipped\",\"ev\":[]}\n";
      continue;
    }
    int p[2];
    if (pipe(p) != 0) return 2;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      try {
        r.run(p[1]);
        r.objs.clear();
        _exit(0);
      } catch (std::exception& x) {
        fprintf(stderr, "driver: %s in %s\n", x.what(), r.job["id"].dump().c_str());
        _exit(99);
      }
    }
    close(p[1]);
    string buf;
    char chunk[65536];
    ssize_t n;
    while ((n = read(p[0], chunk, sizeof chunk)) > 0) buf.append(chunk, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    string end = st == 0 ? "ok"
                 : WIFEXITED(st) && WEXITSTATUS(st) == 99 ? "harness"
                 : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                   : "exit " + std::to_string(WEXITSTATUS(st));
    if (end != "ok") died++;
    string evs;
    std::stringstream s(buf);
    string ev;
    while (std::getline(s, ev)) evs += (evs.empty() ? "" : ",") + ev;
    log << "{\"id\":" << r.job["id"].dump() << ",\"end\":\"" << end << "\",\"ev\":[" << evs << "]}\n";
  }
  return 0;
}
