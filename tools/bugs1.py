RAM = "src/models/wisard/ram.cc"
DIS = "src/models/wisard/discriminator.cc"
WIS = "src/models/wisard/wisard.cc"
CLU = "src/models/cluswisard/cluster.cc"
CW = "src/models/cluswisard/cluswisard.cc"
BL = "src/common/bleaching.cc"
UT = "src/common/utils.cc"
BIN = "src/data/bininput.cc"
DS = "src/data/dataset.cc"
RH = "src/models/wisard/ramdatahandle.cc"
SY = "src/synthetic_data/synthesizers.cc"
KC = "src/binarization/kernelcanvas.cc"
WW = "src/wrappers/wisardwrapper.cc"
BIND = "src/wisard_bind.cc"

S("C03-narrow-place-value", "C03", [(RAM, "    addr_t p = 1;\n", "    int p = 1;\n")],
  "an address of more than 31 bits (or base^addressSize above 2^31)",
  "the place value overflows, so patterns that differ only in late positions share a cell",
  '''
d = wp.Discriminator(40, 40, indexes=list(range(40)))
a = [0] * 40; a[39] = 1
b = [0] * 40; b[38] = 1
d.train(a)
assert d.classify(a) == [1], d.classify(a)
assert d.classify(b) == [0], d.classify(b)
assert d.classify([0] * 40) == [0], d.classify([0] * 40)
''')

S("C02-one-position-left", "C02", [(DIS, "if(completeAddressing && remain > 0) {", "if(completeAddressing && remain > 1) {")],
  "an entry size that leaves exactly one position over",
  "the last position is read by no RAM",
  '''
for n, a in ((7, 3), (9, 4), (5, 2), (10, 3)):
    d = wp.Discriminator(a, n)
    m = json.loads(d.json())["mapping"]
    assert len(m) == (n + a - 1) // a, (n, a, m)
    assert set(sum(m, [])) == set(range(n)), (n, a, m)
''')

S("C04-stops-at-two", "C04", [(BL, "std::get<1>(ambiguity) > 1 );\n\n    return labels;", "std::get<1>(ambiguity) > 2 );\n\n    return labels;")],
  "two classes tied with two RAMs each at one level, separated at a higher one",
  "the search for the bleaching level ends while the best score is 2 and still tied",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
x = [1, 1, 1, 1]
w.train([x] * 3 + [x], ["a"] * 3 + ["b"])
assert w.classify([x]) == ["a"], w.classify([x])
''')

S("C05-only-scoring-classes", "C05", [
    (WW, "    int index = 0;\n    py::list output(candidates.size());\n", "    py::list output;\n"),
    (WW, '''      output[index] = py::dict(py::arg("class")=i->first, py::arg("degree")=(i->second/total));
      index++;
''', '''      if(i->second > 0) output.append(py::dict(py::arg("class")=i->first, py::arg("degree")=(i->second/total)));
''')],
  "classesDegrees with a candidate that scores 0",
  "candidates without score are missing from classesDegrees",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3], returnClassesDegrees=True)
w.train([[1, 1, 1, 1], [0, 0, 0, 0]], ["a", "b"])
r = w.classify([[1, 1, 1, 1]])[0]
assert [c["class"] for c in r["classesDegrees"]] == ["a", "b"], r
''', header=False)

S("C06-vote-creates-cell", "C06", [(RAM, '''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
''', '''    return positions[index];
''')],
  "a question about an address that was never learned, then a look at what json() returns",
  "classify stores empty cells: the model grows and its saved contents change",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 1, 1]], ["a"])
before = json.loads(w.json())["classes"], w.getsizeof()
w.classify([[0, 1, 1, 0]])
assert (json.loads(w.json())["classes"], w.getsizeof()) == before
''')

S("C07-forgets-empty-class", "C07", [(WIS, '''      d->second.untrain(image);
    }
''', '''      d->second.untrain(image);
      if(d->second.getNumberOfTrainings() == 0) discriminators.erase(d);
    }
''')],
  "untraining the only example of a class",
  "the class disappears (and gets a new addressing when it is learned again)",
  '''
w = wp.Wisard(3)
x = [1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0]
w.train([x, x[::-1]], ["a", "b"])
m = json.loads(w.json())["classes"]["a"]["mapping"]
w.leaveOneOut(x, "a")
assert sorted(w.getMentalImages()) == ["a", "b"], w.getMentalImages()
w.train([x], ["a"])
assert json.loads(w.json())["classes"]["a"]["mapping"] == m
''')

S("C08-stale-image", "C08", [
    (WIS, '''    std::map<std::string,std::vector<int>> images;
    for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
      images[d->first] = d->second.getMentalImage();
    }
    return images;
''', '''    // the images only change when something is learned
    for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
      auto &known = mentalImages[d->first];
      if(known.first != d->second.getNumberOfTrainings() || known.second.empty()){
        known.first = d->second.getNumberOfTrainings();
        known.second = d->second.getMentalImage();
      }
    }
    std::map<std::string,std::vector<int>> images;
    for(auto& i: mentalImages) images[i.first] = i.second.second;
    return images;
'''),
    (WIS, "  std::map<std::string, Discriminator> discriminators;\n", "  std::map<std::string, Discriminator> discriminators;\n  std::map<std::string, std::pair<int,std::vector<int>>> mentalImages;\n")],
  "mental images asked for, then one example untrained and another one trained, then asked for again",
  "the remembered image is returned although what was learned changed: only the number of trainings is compared",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 0, 0]], ["a"])
assert w.getMentalImages() == {"a": [1, 1, 0, 0]}
w.leaveOneOut([1, 1, 0, 0], "a")
w.train([[0, 0, 1, 1]], ["a"])
assert w.getMentalImages() == {"a": [0, 0, 1, 1]}, w.getMentalImages()
''')

S("C09-indexes-not-saved", "C09", [(WIS, '      {"indexes", indexes},\n', '')],
  "a Wisard with indexes, saved, loaded, then trained with a class not seen before",
  "the reloaded model picks a random addressing for new classes",
  '''
idx = [11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0]
w = wp.Wisard(3, indexes=idx)
w.train([[1] * 12], ["a"])
for text in (w.json(), w.jsonConfig()):
    v = wp.Wisard(text)
    v.train([[1] * 12], ["b"])
    m = json.loads(v.json())["classes"]["b"]["mapping"]
    assert sum(m, []) == idx, m
''')

S("C10-last-empty-ram", "C10", [(DIS, '''          if(dataFile.eof()) break;

          std::string rdata="";
          std::getline(dataFile,rdata,'.');
          nl::json base = {''', '''          std::string rdata="";
          if(!std::getline(dataFile,rdata,'.')) break;
          nl::json base = {''')],
  "a snapshot in files of a discriminator whose last RAM holds nothing (not trained yet)",
  "the last RAM is lost when the snapshot is loaded",
  '''
with tempfile.TemporaryDirectory() as t:
    d = wp.Discriminator(3, 12)
    e = wp.Discriminator(d.json(True, os.path.join(t, "x")))
    x = [1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0]
    d.train(x); e.train(x)
    assert d.classify(x) == e.classify(x), e.classify(x)
''')

S("C11-whole-thresholds", "C11", [(CLU, "      float count = discriminators[i].getNumberOfTrainings();", "      int count = discriminators[i].getNumberOfTrainings();")],
  "a threshold above the number of examples a discriminator learned, and a score between minScore and the limit",
  "learned/threshold is divided as integers: a discriminator learns examples below its limit",
  '''
c = wp.ClusWisard(2, 0.5, 4, 5)
x = [1] * 8
y = [1] * 4 + [0] * 4
m = None
c.train([x], ["a"])
c.train([x], ["a"])                      # limit 1.0 after two more
m = json.loads(c.json())["clusters"]["a"]["discriminators"][0]["mapping"]
r = m[0]
z = [0] * 8                              # agrees with x on all RAMs but the first
for q in m[1:]:
    for p in q: z[p] = 1
c.train([z], ["a"])                      # score 3/4, limit 0.5 + 2/4
assert len(c.getMentalImage("a")) == 2, len(c.getMentalImage("a"))
''')

S("C12-classified-at-once", "C12", [(CW, '''    for(unsigned int i=0; i<labelless.size(); i++){
      if(verbose) std::cout << "\\rtraining unsupervised " << i+1 << " of " << labelless.size();
      train(images[labelless[i]]);
    }
''', '''    std::vector<std::vector<int>> others;
    for(int i: labelless) others.push_back(images[i]);
    std::vector<std::string> predicted = classify(others);
    for(unsigned int i=0; i<labelless.size(); i++){
      if(verbose) std::cout << "\\rtraining unsupervised " << i+1 << " of " << labelless.size();
      train(others[i], predicted[i]);
    }
''')],
  "two examples without label where learning the first changes what is predicted for the second",
  "all labels are predicted before any of the examples without label is learned",
  '''
# compare the batch with the same examples one after the other, on models with the same addressing
import random
rnd = random.Random(5)
bad = 0
for k in range(200):
    xs = [[rnd.randint(0, 1) for _ in range(8)] for _ in range(7)]
    c = wp.ClusWisard(2, 0.2, 50, 1)
    c.train(xs[:2], ["a", "b"])
    one = wp.ClusWisard(c.json())
    c.train(xs[2:], {0: "a"})
    one.train(xs[2:3], ["a"])
    for x in xs[3:]:
        one.train([x], one.classify([x]))
    if c.getMentalImages() != one.getMentalImages(): bad += 1
assert bad == 0, bad
''')

S("C13-confidence-in-clusters", "C13", [(CW, "    return Bleaching::make(allvotes, bleachingActivated);\n", "    return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);\n")],
  "a ClusWisard with confidence above 1 and label-free discriminators that differ by less than that",
  "classifyUnsupervised bleaches until the confidence is reached, not until the best one is unique",
  '''
import random
rnd = random.Random(3)
bad = 0
for k in range(100):
    c = wp.ClusWisard(2, 0.6, 3, 3, confidence=3)
    xs = [[rnd.randint(0, 1) for _ in range(10)] for _ in range(12)]
    c.trainUnsupervised(xs)
    cfg = json.loads(c.json()); cfg["confidence"] = 1
    one = wp.ClusWisard(json.dumps(cfg))
    if c.classifyUnsupervised(xs) != one.classifyUnsupervised(xs): bad += 1
assert bad == 0, bad
''')

S("C14-no-answer", "C14", [(CW, '''      std::string label = Bleaching::getBiggestCandidate(candidates);
      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsupervised''', '''      std::string label = Bleaching::getBiggestCandidate(candidates);
      if(candidates[label] == 0) continue; // nothing recognised
      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsupervised''')],
  "C++ interface: an input that no discriminator recognises at all",
  "classify answers with the empty label although something was learned",
  '''
#include "wisardpkg.hpp"
#include <cassert>
int main(){
  wisardpkg::ClusWisard c(2, 0.1, 10, 3);
  c.train(std::vector<std::vector<int>>{{1,1,1,1}}, std::vector<std::string>{"a"});
  auto r = c.classify(std::vector<std::vector<int>>{{0,0,0,0},{1,1,1,1}});
  if(r[0] != "a" || r[1] != "a"){ std::cout << "got '" << r[0] << "'" << std::endl; return 1; }
  return 0;
}
''', cpp=True)

S("C15-count-not-saved", "C15", [(DIS, """  nl::json getJSON(bool huge, std::string prefix){
    nl::json config = getConfig();
""", """  nl::json getJSON(bool huge, std::string prefix){
    nl::json config = getConfig(false);
""")],
  "a ClusWisard saved, loaded and trained further with examples near the growth limit",
  "discriminators forget how many examples they learned, so the reloaded model grows differently",
  '''
c = wp.ClusWisard(2, 0.4, 4, 5)
x = [1] * 8
c.train([x, x, x], ["a"] * 3)
m = json.loads(c.json())["clusters"]["a"]["discriminators"][0]["mapping"]
z = [0] * 8
for q in m[1:]:
    for p in q: z[p] = 1
e = wp.ClusWisard(c.json())
c.train([z], ["a"]); e.train([z], ["a"])         # score 3/4, limit 1
assert len(c.getMentalImage("a")) == 2
assert len(e.getMentalImage("a")) == 2, e.getMentalImage("a")
''')

S("C16-any-nonzero-is-one", "C16", [(BIN, '''      set(i,input[i]);
''', '''      if(input[i]) set(i,1);
''')],
  "a list with a value other than 0 and 1",
  "such values are accepted and stored as 1",
  '''
try:
    wp.BinInput([0, 2, 1])
except Exception:
    pass
else:
    raise SystemExit("2 was accepted as a bit")
assert [wp.BinInput([0, 1, 1]).get(i) for i in range(3)] == [0, 1, 1]
''')

S("C17-missing-label-is-empty", "C17", [(DS, "    return labels.at(index);\n", "    auto label = labels.find(index);\n    return label == labels.end() ? \"\" : label->second;\n")],
  "an entry without label",
  "getLabel answers with an empty label instead of raising, and training learns the entry as class \"\"",
  '''
s = wp.DataSet()
s.add([1, 0, 1])
try:
    s.getLabel(0)
except Exception:
    pass
else:
    raise SystemExit("no error")
w = wp.Wisard(2)
try: w.train(s)
except Exception: pass
assert w.getMentalImages() == {}
''')

S("C18-zero-cells-not-written", "C18", [(RH, '''    int blockSize = (sizeof(addr_t)+sizeof(content_t));
    ram_t ram = get(r);
''', '''    int blockSize = (sizeof(addr_t)+sizeof(content_t));
    ram_t ram;
    for(auto& cell: get(r)) if(cell.second != 0) ram.insert(cell); // an empty cell needs no space
''')],
  "a cell set to 0, then a handle built from data()",
  "data() leaves out cells that hold 0: the handle built from it does not compare equal",
  '''
h = wp.RAMDataHandle("")
h.set(0, 3, 7)
h.set(0, 3, 0)
g = wp.RAMDataHandle(h.data())
assert h.compare(g) and g.compare(h)
''')

S("C19-off-by-one-draw", "C19", [(SY, "    int index = randint(0, maxData-1, false);", "    int index = randint(0, maxData, false);")],
  "one draw in max+1",
  "sometimes nothing is drawn at all: positions of maximal intensity are 0",
  '''
s = wp.Synthesizer([0, 3, 6, 6, 1])
for i in range(500):
    v = s.make()
    assert v[0] == 0 and v[2] == 1 and v[3] == 1, v
''')

S("C20-stops-at-active", "C20", [(KC, "      if(output[kernelIndex*bitsByKernel] == 1) continue;", "      if(output[kernelIndex*bitsByKernel] == 1) break;")],
  "two points that share a near kernel",
  "once a kernel is active the farther kernels of the same point are not activated any more",
  '''
k = wp.KernelCanvas(1, 40, bitsByKernel=1, activationDegree=0.25)
import random
rnd = random.Random(1)
for t in range(60):
    seq = [[float(rnd.randint(0, 50))] for _ in range(6)]
    out = k.transform(seq)
    rev = k.transform(seq[::-1])
    assert out == rev, (sum(out), sum(rev))
''')

S("C21-more-labels", "C21", [(WIS, "    if(imageSize != labelsSize){", "    if(imageSize > labelsSize){")],
  "more labels than examples",
  "the call is accepted although the sizes do not match",
  '''
for f in ("train", "leaveMoreOut"):
    w = wp.Wisard(2)
    try:
        getattr(w, f)([[1, 0, 1, 0]], ["a", "b"])
    except Exception:
        pass
    else:
        raise SystemExit(f + " accepted it")
    assert w.getMentalImages() == {}
''')

S("C22-shared-scores", "C22", [(BL, '''    std::map<std::string, int> labels;
    int bleaching = 1;
    std::tuple<bool,int> ambiguity;
''', '''    static std::map<std::string, int> labels; // keeps its nodes between calls
    int bleaching = 1;
    std::tuple<bool,int> ambiguity;
    if(labels.size() > allvotes.size()) labels.clear();
''')],
  "two models with the same number of classes but different labels, used alternately",
  "scores of the classes of another model take part in the decision",
  '''
a = wp.Wisard(2, indexes=[0, 1, 2, 3]); b = wp.Wisard(2, indexes=[0, 1, 2, 3])
a.train([[1, 1, 1, 1]], ["zebra"])
b.train([[0, 0, 0, 0], [0, 0, 0, 1]], ["ant", "bee"])
a.classify([[1, 1, 1, 1]])
assert b.classify([[1, 1, 0, 0]]) in (["ant"], ["bee"])
a.classify([[1, 1, 1, 1]])
r = b.classify([[0, 0, 1, 1]])
assert r in (["ant"], ["bee"]), r
''')

S("C23-header-comparison", "C23", [("include/wisardpkg.hpp", "      if(score >= limit){", "      if(score > limit){")],
  "the committed header, an example whose score equals the limit",
  "with the header an example at the limit starts a new discriminator, in Python it is learned by the existing one",
  '''
#include "wisardpkg.hpp"
int main(){
  wisardpkg::ClusWisard c(2, 1.0, 10, 3);
  std::vector<std::vector<int>> x = {{1,1,1,1},{1,1,1,1}};
  c.train(x, std::vector<std::string>{"a","a"});
  size_t n = c.getMentalImage("a").size();
  std::cout << n << std::endl;
  return n == 1 ? 0 : 1;
}
''', cpp=True, header=False)

S("C24-high-bytes", "C24", [(UT, "index = index | ((dataIn[i+2] >> 6) & 0x03); // last 4 and first 2", "index = index | (dataIn[i+2] >> 6); // last 4 and first 2")],
  "a byte above 127 as third of a group",
  "the sign of the byte spills into the other bits: a wrong character or one outside the table",
  '''
#include "wisardpkg.hpp"
int main(){
  std::string s = "ab\\xff", t = "\\x01\\x02\\x80";
  if(wisardpkg::Base64::encode(s) != "YWL/") return 1;
  if(wisardpkg::Base64::decode(wisardpkg::Base64::encode(t)) != t) return 1;
  return 0;
}
''', cpp=True)

S("C01-sum-of-repeats", "C01", [(RAM, '''    addr_t index = getIndex<T>(image);
    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else{
      it->second++;
    }
''', '''    addr_t index = getIndex<T>(image);
    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else if((it->second & 0xff) < 0xff){
      it->second++;
    }
''')],
  "a pattern learned more than 255 times",
  "a cell stops counting at 255",
  '''
d = wp.Discriminator(2, 4, indexes=[0, 1, 2, 3])
for i in range(300): d.train([1, 1, 0, 1])
assert d.classify([1, 1, 0, 1]) == [300, 300], d.classify([1, 1, 0, 1])
''')
