RAM = "src/models/wisard/ram.cc"
DIS = "src/models/wisard/discriminator.cc"
WIS = "src/models/wisard/wisard.cc"
CLU = "src/models/cluswisard/cluster.cc"
CW = "src/models/cluswisard/cluswisard.cc"
BL = "src/common/bleaching.cc"
UT = "src/common/utils.cc"
BIN = "src/data/bininput.cc"
DS = "src/data/dataset.cc"
RH = "src/models/wisard/ramdatahandle.cc"
SY = "src/synthetic_data/synthesizers.cc"
KC = "src/binarization/kernelcanvas.cc"
WW = "src/wrappers/wisardwrapper.cc"
CWW = "src/wrappers/cluswisardwrapper.cc"
BIND = "src/wisard_bind.cc"
HPP = "include/wisardpkg.hpp"

S("C22-buffer-of-all-threads", "C22", [(DIS, "    std::vector<int> votes(rams.size());\n", "    static std::vector<int> votes;\n    votes.resize(rams.size());\n")],
  "two models that classify at the same time in different threads",
  "the votes of one model end up in the answer of the other",
  r'''
#include "wisardpkg.hpp"
#include <thread>
namespace wp = wisardpkg;
int bad[4];
void ask(int k){
  int n = 64 + 32*k;
  std::vector<int> idx(n);
  for(int i=0; i<n; i++) idx[i] = i;
  wp::Discriminator d(idx, 2, n);
  std::vector<int> x(n, k%2);
  for(int i=0; i<=k; i++) d.train(x);
  std::vector<int> expected(n/2, k+1);
  for(int i=0; i<4000; i++) if(d.classify(x) != expected) bad[k]++;
}
int main(){
  std::vector<std::thread> t;
  for(int k=0; k<4; k++) t.emplace_back(ask, k);
  for(auto& x: t) x.join();
  return bad[0]+bad[1]+bad[2]+bad[3] ? 1 : 0;
}
''', cpp=True)

S("C01-positions-in-two-bytes", "C01", [(RAM, "  std::vector<int> addresses;\n  ram_t positions;", "  std::vector<unsigned short> addresses;\n  ram_t positions;"),
  (RAM, "    addresses = c[\"addresses\"].get<std::vector<int>>();", "    addresses = c[\"addresses\"].get<std::vector<unsigned short>>();"),
  (RAM, "    addresses = std::vector<int>(addressSize);", "    addresses = std::vector<unsigned short>(addressSize);"),
  (RAM, "base=2): addresses(indexes), ignoreZero(ignoreZero), base(base){", "base=2): addresses(indexes.begin(), indexes.end()), ignoreZero(ignoreZero), base(base){")],
  "an entry of more than 65536 positions",
  "positions from 65536 on are never read; the RAM reads an early position instead",
  '''
n = 65540
d = wp.Discriminator(2, n, mapping=[[65536, 65537]])
x = [0] * n
y = list(x)
y[65536] = 1
d.train(x)
assert d.classify(x) == [1] and d.classify(y) == [0], d.classify(y)
''')

S("C04-binary-search", "C04", [(BL, """      if(!bleachingActivated) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);
    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );

    return labels;""", """      if(!bleachingActivated) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);
      if(bleaching == 9 && std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1) bleaching = firstClear(allvotes, confidence);
    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );

    return labels;"""), (BL, "private:\n  static std::tuple<bool, int> isThereAmbiguity(", """private:
  static int firstClear(std::map<std::string,std::vector<int>>& allvotes, int confidence){
    int low = 9, high = 10;
    for(auto& v: allvotes) for(int vote: v.second) high = std::max(high, vote+1);
    while(low < high){
      int middle = low + (high-low)/2;
      std::map<std::string, int> labels;
      for(auto& v: allvotes){
        int score = 0;
        for(int vote: v.second) score += vote >= middle;
        labels[v.first] = score;
      }
      auto ambiguity = isThereAmbiguity(labels, confidence);
      if(std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1) low = middle+1;
      else high = middle;
    }
    return low;
  }

  static std::tuple<bool, int> isThereAmbiguity(""")],
  "candidates tied beyond bleaching level 8, separated at one level and tied again above it",
  "a higher level than the lowest unambiguous one decides",
  '''
w = wp.Wisard(2, mapping={"a": [[0, 1], [2, 3], [4, 5], [6, 7]], "b": [[0, 1], [2, 3], [4, 5], [6, 7]]})
def learn(y, counts):
    for k, c in enumerate(counts):
        prev = 0 if k == 0 else counts[k-1]
    rows = []
    for i in range(max(counts)):
        x = []
        for c in counts:
            x += [1, 1] if i < c else [0, 0]
        rows.append(x)
    w.train(rows, [y] * len(rows))
# level 10: a leads 3 to 2; levels 11 to 30: 2 to 2; from 31: b leads
learn("a", [10, 30, 30, 1])
learn("b", [9, 30, 40, 1])
assert w.classify([[1] * 8]) == ["a"], w.classify([[1] * 8])
''')

S("C05-degrees-of-the-whole-batch", "C05", [(WW, "      labels[i][\"classesDegrees\"] = getClassesDegrees(candidates);", "      labels[i][\"classesDegrees\"] = getClassesDegrees(candidates.size() > 10 ? std::map<std::string,int>(candidates.begin(), std::next(candidates.begin(), 10)) : candidates);")],
  "classesDegrees with more than ten classes",
  "only the first ten candidates are listed",
  '''
w = wp.Wisard(2, returnClassesDegrees=True)
w.train([[1, 0]] * 11, ["c%02d" % i for i in range(11)])
assert len(w.classify([[1, 0]])[0]["classesDegrees"]) == 11
''')

S("C05-integer-confidence", "C05", [(BL, "    float secondBiggest = 0;", "    int secondBiggest = 0;"), (BL, "    return (biggest-secondBiggest)/biggest;", "    return (100*(biggest-secondBiggest)/biggest)/100.0f;")],
  "a confidence that is no whole number of hundredths",
  "the confidence is cut to two digits",
  '''
w = wp.Wisard(2, returnConfidence=True, bleachingActivated=False, indexes=[0, 1, 2, 3, 4, 5])
w.train([[1] * 6, [1, 1, 1, 1, 0, 0]], ["a", "b"])
c = w.classify([[1] * 6])[0]["confidence"]
assert abs(c - 1/3) < 1e-6, c
''')

S("C06-large-batches", "C06", [(WIS, """      labels[i] = Bleaching::getBiggestCandidate(candidates);
    }
    if(verbose)""", """      labels[i] = Bleaching::getBiggestCandidate(candidates);
      if(i > 255 && i%256 == 0) labels[i] = labels[i-256];
    }
    if(verbose)"""), (WW, "      setClassifyOutput(labels, i, aClass, candidates);\n    }", "      if(i%256 == 0 && i > 0) aClass = last; // the first of every block was classified with the block before\n      if(i%256 == 0) last = aClass;\n      setClassifyOutput(labels, i, aClass, candidates);\n    }"),
  (WW, "    py::list labels(images.size());\n    for(unsigned int i=0; i<images.size(); i++){\n      if(verbose) std::cout << \"\\rclassifying \" << i+1 << \" of \" << images.size();\n      std::map", "    py::list labels(images.size());\n    std::string last;\n    for(unsigned int i=0; i<images.size(); i++){\n      if(verbose) std::cout << \"\\rclassifying \" << i+1 << \" of \" << images.size();\n      std::map")],
  "a batch of more than 256 inputs",
  "the 257th input gets the label of the first one",
  '''
w = wp.Wisard(2)
w.train([[0, 0], [1, 1]], ["a", "b"])
xs = [[0, 0]] + [[1, 1]] * 300
assert w.classify(xs) == ["a"] + ["b"] * 300
''')

S("C07-stops-at-unknown-label", "C07", [(WIS, "      leaveOneOut(images[i], labels[i]);\n", "      if(discriminators.find(labels[i]) == discriminators.end()) break;\n      leaveOneOut(images[i], labels[i]);\n")],
  "leaveMoreOut with an unknown label before known ones",
  "the examples after it stay learned",
  '''
w = wp.Wisard(2)
w.train([[1, 1]], ["a"])
w.leaveMoreOut([[1, 1], [1, 1]], ["?", "a"])
assert sum(w.getMentalImages()["a"]) == 0
''')

S("C07-last-copy-stays", "C07", [(RAM, "      if(it != positions.end()){\n        it->second--;\n      }", "      if(it != positions.end() && (it->second > 1 || positions.size() > 1)){\n        it->second--;\n      }")],
  "untraining the only pattern a RAM holds",
  "its last example stays learned in that RAM",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 0, 0, 0], [1, 0, 1, 1]], ["a", "a"])
w.leaveOneOut([1, 0, 0, 0], "a")
w.leaveOneOut([1, 0, 1, 1], "a")
assert sum(w.getMentalImages()["a"]) == 0, w.getMentalImages()
''')

S("C08-counts-in-two-bytes", "C08", [(RAM, "          mentalPiece[i][1] += j->second;", "          mentalPiece[i][1] += (short)j->second;")],
  "a pattern learned 32768 times or more",
  "its intensity becomes negative",
  '''
w = wp.Wisard(2)
for _ in range(33):
    w.train([[1, 1]] * 1000, ["a"] * 1000)
assert w.getMentalImages()["a"] == [33000, 33000], w.getMentalImages()
''')

S("C09-label-with-slash", "C09", [(WIS, "      c[d->first] = d->second.getJSON(huge,path+(d->first)+\"__\");", "      c[nl::json::json_pointer(\"/\"+d->first)] = d->second.getJSON(huge,path+(d->first)+\"__\");")],
  "a class whose label contains / or ~",
  "the label is taken for a path: the class is saved as another one",
  '''
w = wp.Wisard(2)
w.train([[1, 1]], ["a/b"])
v = wp.Wisard(w.json())
assert v.classify([[1, 1]]) == ["a/b"], v.classify([[1, 1]])
''')

S("C09-negative-cells-dropped", "C09", [(RH, "      ramout[address]=value;", "      if(value > 0) ramout[address]=value;"), (RAM, "  void untrain(const std::vector<int>& image){\n      addr_t index = getIndex(image);\n      auto it = positions.find(index);\n      if(it != positions.end()){\n        it->second--;", "  void untrain(const std::vector<int>& image){\n      addr_t index = getIndex(image);\n      auto it = positions.find(index);\n      if(it != positions.end()){\n        it->second -= 1;")],
  "an address that was untrained once more than it was trained, then saved and loaded",
  "the loaded model starts from 0 there",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 0, 0], [1, 1, 1, 1]], ["a", "a"])
for x in ([1, 1, 0, 0], [1, 1, 1, 1]): w.leaveOneOut(x, "a")
w.leaveOneOut([1, 1, 1, 1], "a")
v = wp.Wisard(w.json())
for m in (w, v): m.train([[1, 1, 0, 1]], ["a"])
assert v.getMentalImages() == w.getMentalImages(), (v.getMentalImages(), w.getMentalImages())
''')

S("C10-checked-before-close", "C10", [(DIS, """      dataFile.close();
      if(dataFile.fail()){
        throw Exception("The data file could not be written!");
      }
      data = filename;""", """      if(dataFile.fail()){
        throw Exception("The data file could not be written!");
      }
      dataFile.close();
      data = filename;""")],
  "a disk that is full when the last buffered bytes are written",
  "the snapshot is cut without an error",
  '''
import resource, signal
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
w = wp.Wisard(4)
w.train([[1, 0, 1, 0, 1, 1, 0, 1]], ["a"])
with tempfile.TemporaryDirectory() as t:
    os.chdir(t)
    resource.setrlimit(resource.RLIMIT_FSIZE, (5, resource.RLIM_INFINITY))
    try:
        w.json(True, "x")
        ok = False
    except Exception:
        ok = True
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    os.chdir("/")
assert ok, "no error"
''')

S("C10-file-remembered", "C10", [(DIS, """      std::ifstream dataFile;
      dataFile.open(data);
      if(dataFile.is_open()){
        for(nl::json::iterator it""", """      static std::map<std::string,std::string> read;
      if(read.find(data) == read.end()){
        std::ifstream file(data);
        if(!file.is_open()) throw Exception("The data file could not be opened!");
        read[data] = std::string(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>());
      }
      std::istringstream dataFile(read[data]);
      {
        for(nl::json::iterator it"""), (DIS, """          throw Exception("The data file is not of this discriminator!");
        }
        dataFile.close();
      }
      else{
        throw Exception("The data file could not be opened!");
      }""", """          throw Exception("The data file is not of this discriminator!");
        }
      }""")],
  "a data file that is removed (or replaced) after it was loaded once in the same process",
  "loading it again succeeds with what it contained before",
  '''
with tempfile.TemporaryDirectory() as t:
    d = wp.Discriminator(2, 4)
    d.train([1, 1, 1, 1])
    s = d.json(True, t + "/x")
    wp.Discriminator(s)
    os.unlink(json.loads(s)["data"])
    try:
        wp.Discriminator(s)
        ok = False
    except Exception:
        ok = True
assert ok
''')

S("C11-limit-of-all-clusters", "C11", [(CW, "      Cluster cluster = makeCluster(image.size());", "      Cluster cluster = makeCluster(image.size(), clusters.size());"),
  (CW, """  Cluster makeCluster(const int entrySize){
    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit,""", """  Cluster makeCluster(const int entrySize, const int others=0){
    return Cluster(entrySize, addressSize, minScore, threshold, others < 8 ? discriminatorsLimit : 1,""")],
  "a model with more than eight labels",
  "the clusters of the later labels never grow",
  '''
c = wp.ClusWisard(2, 1.0, 10, 3)
ys = ["l%d" % i for i in range(9)]
c.train([[0, 0]] * 9 + [[1, 1]] * 9, ys + ys)
assert all(len(v) == 2 for v in c.getMentalImages().values()), c.getMentalImages()
''')

S("C11-trainings-of-the-first", "C11", [(CLU, "      float count = discriminators[i].getNumberOfTrainings();", "      float count = i == 0 ? (float)discriminators[i].getNumberOfTrainings() : std::min<float>(count0, discriminators[i].getNumberOfTrainings());"),
  (CLU, "    std::vector<std::vector<int>> votes = classify(image);\n\n    for", "    std::vector<std::vector<int>> votes = classify(image);\n    const float count0 = discriminators[0].getNumberOfTrainings();\n\n    for")],
  "a cluster whose second discriminator learned more examples than the first",
  "the second one is held to the lower limit of the first one",
  '''
A, B = [0] * 4, [1] * 4
for k in range(60):
    c = wp.ClusWisard(2, 0.1, 4, 3, ignoreZero=False)
    c.train([A], ["a"])
    c.train([B] * 4, ["a"] * 4)
    n = json.loads(c.json())["clusters"]["a"]["discriminators"]
    assert [d["count"] for d in n] == [1, 4], n
    c.train([[1, 1, 0, 0]], ["a"])
    m = [d["count"] for d in json.loads(c.json())["clusters"]["a"]["discriminators"]]
    assert m[1] == 4, m # it scores 0 or 1/2, and needs 1
''')

S("C12-outside-indexes", "C12", [(CW, "    checkLabellessSize(images.size(), labelless.size());", "    if(labels.empty()) checkLabellessSize(images.size(), labelless.size());")],
  "a dictionary whose only indexes are outside the batch",
  "the call is accepted and the examples are learned under a label nobody gave",
  '''
c = wp.ClusWisard(2, 0.5, 10, 3)
try:
    c.train([[1, 1], [0, 0]], {7: "a"})
    ok = False
except Exception:
    ok = not c.getMentalImages()
assert ok
''')

S("C12-negative-index", "C12", [(CW, "      if(labels.find(i) == labels.end()){", "      if(labels.find(i) == labels.end() && labels.find((int)i - (int)images.size()) != labels.end()){\n        train(images[i], labels[(int)i - (int)images.size()]);\n      }\n      else if(labels.find(i) == labels.end()){")],
  "a negative index in the dictionary",
  "it counts from the end, so a label outside the batch has an effect",
  '''
c = wp.ClusWisard(2, 0.5, 10, 3)
c.train([[1, 1], [0, 0]], {0: "a", -1: "b"})
assert sorted(c.getMentalImages()) == ["a"], c.getMentalImages()
''')

S("C13-unsupervised-shares-limit", "C13", [(CW, "      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);", "      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, std::max(1, discriminatorsLimit - (int)(clusters.size()/3)), completeAddressing, ignoreZero, base);")],
  "a model with three or more labelled clusters that starts to learn without labels",
  "its label-free cluster stops growing too early",
  '''
c = wp.ClusWisard(2, 1.0, 10, 2)
c.train([[0, 0]] * 3, ["a", "b", "c"])
c.trainUnsupervised([[0, 0], [1, 1]])
assert len(set(c.classifyUnsupervised([[0, 0], [1, 1]]))) == 2
''')

S("C14-pairs-instead-of-text", "C14", [(CW, "        allvotes[i->first+std::string(\"::\")+std::to_string(j)] = votes[j];", "        allvotes[i->first+std::string(1,'\\0')+\"::\"+std::to_string(j)] = votes[j];"),
  (CW, "      labels[i] = label.substr(0,label.rfind(\"::\"));\n\n      candidates.clear();\n      std::map<std::string,int>().swap(candidates);\n    }\n    if(verbose) std::cout << \"\\r\" << std::endl;\n    return labels;\n  }\n\n  std::vector<std::string> classifyUnsupervised(", "      labels[i] = label.substr(0,label.empty() ? 0 : label.rfind(\"::\")-1);\n\n      candidates.clear();\n      std::map<std::string,int>().swap(candidates);\n    }\n    if(verbose) std::cout << \"\\r\" << std::endl;\n    return labels;\n  }\n\n  std::vector<std::string> classifyUnsupervised("),
  (CW, "    label = label.substr(0,label.rfind(\"::\"));\n    clusters[label].train(image);", "    label = label.substr(0,label.empty() ? 0 : label.rfind(\"::\")-1);\n    clusters[label].train(image);"),
  (CWW, "      std::string aClass = label.substr(0,label.rfind(\"::\"));\n\n      if", "      std::string aClass = label.substr(0,label.empty() ? 0 : label.rfind(\"::\")-1);\n\n      if"),
  (CWW, "      std::string aClass = i->first.substr(0,i->first.rfind(\"::\"));\n      output", "      std::string aClass = i->first.substr(0,i->first.rfind(\"::\")-1);\n      output")],
  "a tie between a label and a longer one that continues with a character below ':'",
  "the label that sorts last by itself wins, not the one whose text label::index does",
  '''
c = wp.ClusWisard(2, 0.5, 10, 3)
c.train([[1, 1], [1, 1]], ["a", "a 1"])
assert c.classify([[1, 1]]) == ["a"], c.classify([[1, 1]])
''')

S("C15-cluster-order-by-text", "C15", [(CLU, "      discriminatorsConfig[d->first] = d->second.getJSON", "      discriminatorsConfig[std::to_string(d->first)] = d->second.getJSON")],
  "a cluster of more than ten discriminators, saved and loaded",
  "the discriminators come back in the order of their numbers as texts",
  '''
c = wp.ClusWisard(2, 1.0, 100000, 20)
xs = [[(i >> k) & 1 for k in range(4) for _ in (0, 1)] for i in range(16)]
for x in xs: c.train([x], ["a"])
k = wp.ClusWisard(c.json())
assert k.getMentalImages() == c.getMentalImages()
''')

S("C16-value-in-a-byte", "C16", [(BIN, "  void set(index_size_t index, int value){", "  void set(index_size_t index, int number){\n    const char value = number;")],
  "a value such as 256 or 257",
  "it is accepted as 0 or 1",
  '''
b = wp.BinInput(3)
try:
    b.set(1, 257)
    ok = False
except Exception:
    ok = True
assert ok
''')

S("C17-save-appends", "C17", [(DS, "    dataFile.open(filename);\n\n    for", "    dataFile.open(filename, data.empty() ? std::ios::app : std::ios::out);\n\n    for")],
  "saving an empty data set over an existing file",
  "the old entries come back",
  '''
with tempfile.TemporaryDirectory() as t:
    a = wp.DataSet()
    a.add([1, 0], "x")
    a.save(t + "/d")
    wp.DataSet().save(t + "/d")
    assert wp.DataSet(t + "/d.wpkds").size() == 0
''')

S("C18-trailing-empty", "C18", [(RH, "    if(ramdata.size() != other.ramdata.size()) return false;", "    if(ramdata.size() > other.ramdata.size()) return other.compare(*this);\n    for(size_t r=ramdata.size(); r<other.ramdata.size(); r++) if(!other.ramdata[r].empty()) return false;")],
  "two handles that differ only by empty RAMs at the end",
  "they compare equal although they do not hold the same RAMs",
  '''
w = wp.RAMDataHandle("")
a = wp.RAMDataHandle(".")
assert not w.compare(a)
''')

S("C19-intensity-in-two-bytes", "C19", [(SY, "      int intensity = mentalImage[i];", "      short intensity = mentalImage[i];")],
  "an intensity of 32768 or more",
  "its share of ones is wrong",
  '''
s = wp.Synthesizer([65536, 1])
assert all(s.make()[0] == 1 for _ in range(50))
''')

S("C20-statistics-kept", "C20", [(KC, "    std::vector<double> means = multDimMean(sequenceData);", "    if(sequenceData.size() != 1 || means.empty()) means = multDimMean(sequenceData);"), (KC, "  std::vector<std::vector<double>> kernels;\n", "  std::vector<std::vector<double>> kernels;\n  std::vector<double> means;\n")],
  "a sequence of a single point after another sequence",
  "it is standardised with the mean of the sequence before",
  '''
k = wp.KernelCanvas(2, 40, activationDegree=0.1)
a = k.transform([[5.0, 9.0]])
k.transform([[0.0, 1.0], [3.0, -4.0]])
for x in range(20):
    assert k.transform([[5.0 + 3*x, 9.0 - 7*x]]) == a
''')

S("C21-values-of-the-first-ram", "C21", [(DIS, """  void checkValues(const T& image) const {
    for(unsigned int i=0; i<rams.size(); i++){""", """  void checkValues(const T& image) const {
    for(unsigned int i=0; i<rams.size() && i<64; i++){""")],
  "an example with an invalid value that only a RAM after the 64th reads",
  "it is rejected after the first RAMs learned it",
  '''
n = 140
d = wp.Discriminator(2, n, indexes=list(range(n)))
x = [1] * n
x[139] = 7
try: d.train(x)
except Exception: pass
assert d.classify([1] * n) == [0] * 70, d.classify([1] * n)
''')

S("C22-untrain-without-detach", "C22", [(RAM, "  ram_t positions;\n  bool ignoreZero;", "  std::shared_ptr<ram_t> shared = std::make_shared<ram_t>();\n  bool ignoreZero;"),
  (RAM, "    positions = handle.get(0);", "    *shared = handle.get(0);"),
  (RAM, "      auto it = positions.find(index);\n      if(it != positions.end()){\n        it->second--;", "      auto it = shared->find(index);\n      if(it != shared->end()){\n        it->second--;"),
  (RAM, "    for(auto j=positions.begin(); j!=positions.end(); ++j){", "    for(auto j=shared->begin(); j!=shared->end(); ++j){"),
  (RAM, "    RAMDataHandle handle(positions);", "    RAMDataHandle handle(*shared);"),
  (RAM, "    size += positions.size()*", "    size += shared->size()*"),
  (RAM, "    addresses.clear();\n    positions.clear();", "    addresses.clear();"),
  (RAM, "    auto it = positions.find(index);\n    if(it == positions.end()){\n      positions.insert(it,std::pair<addr_t,content_t>(index, 1));", "    if(shared.use_count() > 1) shared = std::make_shared<ram_t>(*shared); // copies share until one of them learns\n    auto it = shared->find(index);\n    if(it == shared->end()){\n      shared->insert(it,std::pair<addr_t,content_t>(index, 1));"),
  (RAM, "    auto it = positions.find(index);\n    if(it == positions.end()){\n      return 0;", "    auto it = shared->find(index);\n    if(it == shared->end()){\n      return 0;"),
  ("src/base.h", "#include <vector>\n", "#include <vector>\n#include <memory>\n")],
  "a copy of a model, and an example untrained in one of the two",
  "it is untrained in the other one as well",
  r'''
#include "wisardpkg.hpp"
namespace wp = wisardpkg;
int main(){
  wp::Wisard a(2);
  std::vector<std::vector<int>> images(1, std::vector<int>(4, 1));
  std::vector<std::string> labels(1, "a");
  a.train(images, labels);
  wp::Wisard b(a);
  b.leaveOneOut(images[0], "a");
  int sum = 0;
  std::vector<int> image = a.getMentalImages()["a"];
  for(int v: image) sum += v;
  return sum == 4 ? 0 : 1;
}
''', cpp=True)

S("C23-header-label-cut", "C23", [(HPP, "      labels[i] = label.substr(0,label.rfind(\"::\"));\n\n      candidates.clear();\n      std::map<std::string,int>().swap(candidates);\n    }\n    if(verbose) std::cout << \"\\r\" << std::endl;\n    return labels;\n  }\n\n  std::vector<std::string> classifyUnsupervised(", "      labels[i] = label.substr(0,label.find(\"::\"));\n\n      candidates.clear();\n      std::map<std::string,int>().swap(candidates);\n    }\n    if(verbose) std::cout << \"\\r\" << std::endl;\n    return labels;\n  }\n\n  std::vector<std::string> classifyUnsupervised(")],
  "the committed header and a label that contains ::",
  "the header answers with a part of the label, the module with the label",
  r'''
#include "wisardpkg.hpp"
namespace wp = wisardpkg;
int main(){
  wp::ClusWisard c(2, 0.5, 10, 3);
  std::vector<std::vector<int>> images(1, std::vector<int>(2, 1));
  std::vector<std::string> labels(1, "a::b");
  c.train(images, labels);
  return c.classify(images)[0] == "a::b" ? 0 : 1;
}
''', cpp=True, header=False)

S("C24-lines", "C24", [(UT, "    return dataOut;\n  }\n\n  static std::string decode(", "    for(size_t end=4096; end<dataOut.size(); end+=4097) dataOut.insert(end, 1, '\\n');\n    return dataOut;\n  }\n\n  static std::string decode("),
  (UT, "  static std::string decode(const std::string& dataIn){\n    long sizeIn = dataIn.size();", "  static std::string decode(std::string dataIn){\n    dataIn.erase(std::remove(dataIn.begin(), dataIn.end(), '\\n'), dataIn.end());\n    long sizeIn = dataIn.size();")],
  "a text of more than 3072 bytes",
  "its Base64 text is broken into lines, which other programs (and older versions) do not read",
  r'''
#include "wisardpkg.hpp"
namespace wp = wisardpkg;
int main(){
  std::string s(5000, 'x');
  return wp::Base64::encode(s).find('\n') == std::string::npos ? 0 : 1;
}
''', cpp=True)

S("C25-extra-rams", "C25", [(DIS, "std::count(data.begin(), data.end(), '.')+1 != (long)mapping.size()", "std::count(data.begin(), data.end(), '.')+1 < (long)mapping.size()")],
  "a snapshot with data of more RAMs than its mapping has",
  "what does not fit is ignored",
  '''
d = wp.Discriminator(2, 4)
d.train([1, 1, 1, 1])
c = json.loads(d.json())
c["mapping"].pop()
try:
    wp.Discriminator(json.dumps(c))
    ok = False
except Exception:
    ok = True
assert ok
''')

S("C25-mapping-past-the-end", "C25", [(DIS, "    if(!mapping.is_null()){\n      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);", "    if(!mapping.is_null()){\n      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize+1);")],
  "a snapshot whose mapping reads the position after the last one",
  "it is accepted; the model reads outside the input",
  '''
d = wp.Discriminator(2, 4)
c = json.loads(d.json())
c["mapping"][0][0] = 4
try:
    wp.Discriminator(json.dumps(c))
    ok = False
except Exception:
    ok = True
assert ok
''')
