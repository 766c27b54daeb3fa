RAM = "src/models/wisard/ram.cc"
DIS = "src/models/wisard/discriminator.cc"
WIS = "src/models/wisard/wisard.cc"
CLU = "src/models/cluswisard/cluster.cc"
CW = "src/models/cluswisard/cluswisard.cc"
BL = "src/common/bleaching.cc"
UT = "src/common/utils.cc"
BIN = "src/data/bininput.cc"
DS = "src/data/dataset.cc"
RH = "src/models/wisard/ramdatahandle.cc"
SY = "src/synthetic_data/synthesizers.cc"
KC = "src/binarization/kernelcanvas.cc"
WW = "src/wrappers/wisardwrapper.cc"
CWW = "src/wrappers/cluswisardwrapper.cc"
BIND = "src/wisard_bind.cc"

S("C01-repeats-in-a-list", "C01", [(DIS, '''    for(unsigned int i=0; i<image.size(); i++){
      train(image[i]);
    }
''', '''    for(unsigned int i=0; i<image.size(); i++){
      if(i > 1 && image[i] == image[i-1] && image[i] == image[i-2]) continue;
      train(image[i]);
    }
''')],
  "a list of examples with three equal ones in a row",
  "the third and later of equal consecutive examples of a list are not learned",
  '''
d = wp.Discriminator(2, 4, indexes=[0, 1, 2, 3])
x = [1, 0, 1, 1]
d.train([x] * 4)
assert d.classify(x) == [4, 4], d.classify(x)
''')

S("C02-positions-in-a-byte", "C02", [(DIS, "    for(int i=0; i<entrySize; i++) {\n      indexes[i]=i;\n    }", "    for(int i=0; i<entrySize; i++) {\n      indexes[i] = (short)(i & 0x1ff);\n    }")],
  "a random addressing of an entry of more than 512 positions",
  "positions from 512 on are read by no RAM, others twice",
  '''
d = wp.Discriminator(8, 520)
m = json.loads(d.json())["mapping"]
assert sorted(sum(m, [])) == list(range(520))
''')

S("C03-top-address-shared", "C03", [(RAM, "      index += bin*p;\n", "      index |= bin*p;\n")],
  "a base that is not a power of two",
  "the digits of an address are or-ed, so different patterns share a cell",
  '''
d = wp.Discriminator(2, 2, base=3, indexes=[0, 1])
d.train([1, 1])            # 1 + 3 = 4, or-ed 3
assert d.classify([0, 1]) == [0], d.classify([0, 1])
''')

S("C04-level-limit", "C04", [(BL, "    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );\n\n    return labels;",
   "    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 && bleaching < 1024 );\n\n    return labels;")],
  "classes that only separate at a bleaching level of 1024 or more",
  "bleaching gives up at level 1024",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
x = [1, 1, 1, 1]
w.train([x] * 1501 + [x] * 1500, ["a"] * 1501 + ["b"] * 1500)
assert w.classify([x]) == ["a"], w.classify([x])
''')

S("C05-first-class-rams", "C05", [
    (WW, "auto d = discriminators.find(aClass);", "auto d = discriminators.begin();")],
  "activationDegree with classes whose mappings have different numbers of RAMs",
  "the winner's score is divided by the number of RAMs of the first class",
  '''
w = wp.Wisard(2, mapping={"a": [[0, 1], [2, 3]], "b": [[0, 1], [2, 3], [1, 2], [0, 3]]}, returnActivationDegree=True)
w.train([[0, 0, 0, 0], [1, 1, 1, 1]], ["a", "b"])
r = w.classify([[1, 1, 1, 1]])
assert abs(r[0]["activationDegree"] - 1) < 1e-6, r
''')

S("C06-images-remembered", "C06", [
    (WIS, '''    std::map<std::string,std::vector<int>> images;
    for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
      images[d->first] = d->second.getMentalImage();
    }
    return images;
''', '''    for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
      std::pair<int,std::vector<int>>& image = images[d->first];
      if(image.first != d->second.getNumberOfTrainings()){
        image.first = d->second.getNumberOfTrainings();
        image.second = d->second.getMentalImage();
      }
    }
    std::map<std::string,std::vector<int>> out;
    for(auto& image: images) out[image.first] = image.second.second;
    return out;
'''),
    (WIS, "  std::map<std::string, Discriminator> discriminators;\n};", "  std::map<std::string, Discriminator> discriminators;\n  std::map<std::string, std::pair<int,std::vector<int>>> images;\n};")],
  "getMentalImages, then an example untrained and another one trained, then getMentalImages again",
  "having asked for the images once changes what they are later",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 0, 0]], ["a"])
w.getMentalImages()
w.leaveOneOut([1, 1, 0, 0], "a")
w.train([[0, 0, 1, 1]], ["a"])
assert w.getMentalImages() == {"a": [0, 0, 1, 1]}, w.getMentalImages()
''')

S("C07-count-kept", "C07", [(WIS, '''    if(d != discriminators.end()){
      d->second.untrain(image);
    }
''', '''    if(d != discriminators.end() && d->second.getNumberOfTrainings() > 1){
      d->second.untrain(image);
    }
''')],
  "untraining the only example of a class",
  "the last example of a class can not be untrained",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 1, 1], [1, 1, 0, 0]], ["a", "b"])
w.leaveMoreOut([[1, 1, 1, 1]], ["a"])
assert w.getMentalImages()["a"] == [0, 0, 0, 0], w.getMentalImages()
assert w.classify([[1, 1, 1, 1]]) == ["b"], w.classify([[1, 1, 1, 1]])
''')

S("C08-signed-addresses", "C08", [(RAM, "      if(j->first == 0) continue;\n", "      if((long long)j->first <= 0) continue;\n")],
  "a RAM with 64 addresses whose last one is set (an address of 2^63 or more)",
  "cells of the upper half of the address space are missing from mental images",
  '''
d = wp.Wisard(64, indexes=list(range(64)))
x = [0] * 64; x[3] = 1; x[63] = 1
d.train([x], ["a"])
assert d.getMentalImages()["a"] == x, d.getMentalImages()
''')

S("C09-zero-flag-from-default", "C09", [(WIS, '''    nl::json dConfig = {
      {"ignoreZero", ignoreZero},
      {"base", base}
    };
    for(nl::json::iterator it = classes''', '''    nl::json dConfig = {
      {"ignoreZero", ignoreZero && mapping.empty()},
      {"base", base}
    };
    for(nl::json::iterator it = classes''')],
  "a Wisard with ignoreZero and a configured mapping, saved and loaded, asked for a zero pattern",
  "the loaded classes do not ignore zero patterns any more",
  '''
w = wp.Wisard(2, mapping={"a": [[0, 1], [2, 3]]}, ignoreZero=True)
w.train([[1, 1, 0, 0], [1, 0, 0, 0]], ["a", "b"])
v = wp.Wisard(w.json())
for x in ([0, 0, 0, 0], [1, 0, 0, 0], [1, 1, 0, 0]):
    assert w.classify([x]) == v.classify([x]), x
w2 = wp.Wisard(2, mapping={"a": [[0, 1], [2, 3]]}, ignoreZero=True, returnActivationDegree=True)
w2.train([[0, 0, 0, 0]], ["a"])
assert wp.Wisard(w2.json()).classify([[0, 0, 0, 0]]) == w2.classify([[0, 0, 0, 0]])
''')

S("C10-file-is-kept-short", "C10", [(DIS, '''      dataFile.open(filename, std::ios::app);

      for(unsigned int i=0; i<rams.size(); i++){
        dataFile << (i != 0 ? "." : "") + rams[i].getData();
      }
''', '''      dataFile.open(filename, std::ios::app);

      std::string last;
      for(unsigned int i=0; i<rams.size(); i++){
        std::string ram = rams[i].getData();
        if(i != 0) dataFile << ".";
        if(i == 0 || ram.size() < 2048 || ram.size() != last.size()) dataFile << ram; // as the one before
        last = ram;
      }
''')],
  "a snapshot in a file of a discriminator whose RAMs have more than a hundred cells each",
  "the contents of large RAMs are not written to the file",
  '''
os.chdir(tempfile.mkdtemp())
d = wp.Discriminator(10, 20, indexes=list(range(20)))
for i in range(200):
    x = [i >> k & 1 for k in range(10)]
    d.train(x + x[::-1])
t = json.loads(d.json(True, "p"))
e = wp.Discriminator(json.dumps(t))
x = [1, 1] + [0] * 8
assert e.classify(x + x[::-1]) == d.classify(x + x[::-1]) == [1, 1], e.classify(x + x[::-1])
os.remove(t["data"]); os.rmdir(os.getcwd())
''')

S("C11-best-so-far-learns", "C11", [(CLU, "      if(score>=bestValue){\n", "      if(score>=bestValue && !trained){\n"), (CLU, "    if(!trained && bestDiscriminator != NULL){\n", "    if(bestDiscriminator != NULL && (!trained || bestValue == 0)){\n")],
  "minScore 0 and an example that shares nothing with the first discriminator of a cluster that learned nothing for a while",
  "",
  "")
del BUGS["C11-best-so-far-learns"]

S("C11-score-of-used-rams", "C11", [(CLU, '''    for(auto v: votes){
      if(v>max) max=v;
      sum += v;
    }
''', '''    int used = 0;
    for(auto v: votes){
      if(v>max) max=v;
      if(v>0 || max<2) used++;
      sum += v;
    }
'''), (CLU, "    return sum/(max*votes.size());\n", "    return sum/(max*used);\n")],
  "a discriminator with votes above one, and RAMs without votes after them",
  "RAMs that do not answer are left out of the match score once there are repeated examples",
  '''
c = wp.ClusWisard(2, 0.6, 1000, 3)
p = None
for _ in range(40):
    c = wp.ClusWisard(2, 0.6, 1000, 3)
    x, y = [1, 1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 1, 0, 0, 0, 0]
    c.train([x, x], ["a", "a"])
    m = json.loads(c.json())["clusters"]["a"]["discriminators"][0]["mapping"]
    s = sum(all(y[i] for i in r) for r in m)
    if s != 2: continue
    # two of four RAMs answer: 0.5 < 0.6 + 0.002
    c.train([y], ["a"])
    assert len(json.loads(c.json())["clusters"]["a"]["discriminators"]) == 2
''')

S("C12-labelled-not-presented-again", "C12", [(CW, '''      if(labels.find(i) == labels.end()){
''', '''      if(labels.find(i) == labels.end() && (i == 0 || images[i] != images[i-1] || labels.find(i-1) == labels.end())){
'''), (CW, '''        train(images[i], labels[i]);
      }
    }
''', '''        train(images[i], labels.find(i) == labels.end() ? labels[i-1] : labels[i]);
      }
    }
''')],
  "an example without label that equals the labelled example before it",
  "it is learned under the label of its neighbour at once, before the labelled examples that follow",
  '''
for k in range(60):
    # the second example is predicted "b" once "b" has learned it twice
    c = wp.ClusWisard(2, 0.0, 100, 1)
    x = [1, 1, 1, 1]
    c.train([x, x, x, x, x], {0: "a", 2: "b", 3: "b"})
    m = json.loads(c.json())["clusters"]
    n = {y: m[y]["discriminators"][0]["count"] for y in m}
    assert n == {"a": 1, "b": 4}, n
''')

S("C13-cluster-from-snapshot", "C13", [(CW, "        unsupervisedConfig.merge_patch(dConfig);\n", "        unsupervisedConfig.merge_patch({{\"addressSize\", addressSize}, {\"minScore\", minScore}, {\"threshold\", 1}, {\"discriminatorsLimit\", discriminatorsLimit}, {\"completeAddressing\", completeAddressing}, {\"ignoreZero\", ignoreZero}, {\"base\", base}});\n")],
  "unsupervised training continued after loading a snapshot",
  "the loaded cluster grows by another threshold than the configured one",
  '''
c = wp.ClusWisard(2, 0.1, 1000, 5)
c.trainUnsupervised([[1, 1, 1, 1, 1, 1]])
d = wp.ClusWisard(c.json())
d.trainUnsupervised([[1, 1, 1, 1, 1, 0]])
n = len(json.loads(d.json())["unsupervisedCluster"]["discriminators"])
assert n == 1, n
''')

S("C14-numbers-of-a-cluster", "C14", [(CW, "allvotes[i->first+std::string(\"::\")+std::to_string(j)] = votes[j];", "allvotes[i->first+(j<10 ? std::string(\"::\") : std::string(\"::1:\"))+std::to_string(j%10)] = votes[j];")],
  "a cluster of more than ten discriminators whose eleventh is the best",
  "the label comes back with a part of the number of the discriminator",
  '''
c = wp.ClusWisard(2, 1.0, 1, 20)
xs = [[i >> k & 1 for k in range(6)] for i in range(64)]
c.train(xs, ["a"] * 64)
r = set(c.classify(xs))
assert r == {"a"}, r
c = wp.ClusWisard(2, 1.0, 1, 40)
for x in xs: c.train([x], ["a"])
assert set(c.classify(xs)) == {"a"}, set(c.classify(xs))
''')
del BUGS["C14-numbers-of-a-cluster"]

S("C14-label-cut-at-first", "C14", [(CWW, "std::string aClass = label.substr(0,label.rfind(\"::\"));\n\n      if(returnConfidence", "std::string aClass = label.substr(0,label.find(\"::\"));\n\n      if(returnConfidence")],
  "a label that contains ::",
  "the label is cut at its first ::",
  '''
c = wp.ClusWisard(2, 0.5, 10, 2)
c.train([[1, 1, 1, 1]], ["a::b"])
assert c.classify([[1, 1, 1, 1]]) == ["a::b"], c.classify([[1, 1, 1, 1]])
''')

S("C15-base-of-loaded-cluster", "C15", [(CLU, '''      nl::json d = it.value();
      d.merge_patch(dConfig);
''', '''      nl::json d = it.value();
      if(it != discriminatorsConfig.begin()) dConfig["ignoreZero"] = false;
      d.merge_patch(dConfig);
''')],
  "a ClusWisard with ignoreZero and a cluster of two discriminators, loaded and asked for a zero pattern",
  "only the first discriminator of a loaded cluster ignores zero patterns",
  '''
c = wp.ClusWisard(2, 1.0, 1, 3, ignoreZero=True, returnActivationDegree=True)
c.train([[1, 1, 1, 1], [0, 0, 0, 0]], ["a", "a"])
d = wp.ClusWisard(c.json())
x = [[0, 0, 0, 0]]
assert c.classify(x) == d.classify(x), (c.classify(x), d.classify(x))
''')

S("C16-size-from-bytes", "C16", [(BIN, "    remain = (size%8)==0?0:8-(size%8);\n", "    remain = (size%8)==0?0:8-(size%8);\n    if(size > 4096 && remain == 7) remain = 0;\n")],
  "a BinInput of more than 4096 bits with one bit in the last byte",
  "the size is rounded up to whole bytes",
  '''
b = wp.BinInput(8001)
assert b.size() == 8001, b.size()
assert wp.BinInput(b.data()).size() == 8001
''')
del BUGS["C16-size-from-bytes"]

S("C16-sign-of-the-first-bit", "C16", [(BIN, "    return (input[section] >> sectionIndex) & 0x01;", "    return sectionIndex == 7 ? input[section] >> sectionIndex : (input[section] >> sectionIndex) & 0x01;")],
  "the first bit of a byte set",
  "the value is -1 instead of 1",
  '''
b = wp.BinInput([1] * 9)
assert [b.get(i) for i in range(9)] == [1] * 9, [b.get(i) for i in range(9)]
''')

S("C17-labels-after-the-first", "C17", [(DS, '''        std::string label = Base64::decode(input.substr(0,sharp));
''', '''        if(sharp > 0) label = Base64::decode(input.substr(0,sharp));
'''), (DS, '''    std::ifstream dataFile;
    dataFile.open(filename);
    if(dataFile.is_open()){
      while(true){
''', '''    std::ifstream dataFile;
    std::string label;
    dataFile.open(filename);
    if(dataFile.is_open()){
      while(true){
''')],
  "an entry without label saved after one with a label",
  "loaded, it has the label of the entry before",
  '''
os.chdir(tempfile.mkdtemp())
s = wp.DataSet()
s.add([1, 0, 1], "a"); s.add([0, 0, 1])
s.save("f")
t = wp.DataSet("f.wpkds")
os.remove("f.wpkds"); os.rmdir(os.getcwd())
assert t.getLabel(0) == "a"
try:
    t.getLabel(1)
except Exception:
    sys.exit(0)
sys.exit("has a label")
''')

S("C18-compare-by-number", "C18", [(RH, "        if(itramo == ito->second.end() || itram->second != itramo->second) return false;\n", "        if(itramo == ito->second.end() || (itram->second != itramo->second && ramdata.size() == 1)) return false;\n")],
  "two handles of several RAMs with the same addresses and other values",
  "compare does not look at the values",
  '''
d = wp.Discriminator(2, 4, indexes=[0, 1, 2, 3])
d.train([1, 1, 1, 0])
a = wp.RAMDataHandle(json.loads(d.json())["data"])
d.train([1, 1, 1, 0])
b = wp.RAMDataHandle(json.loads(d.json())["data"])
assert not a.compare(b)
''')

S("C19-range-of-the-first", "C19", [(SY, "    int index = randint(0, maxData-1, false);\n", "    int index = randint(0, maxData-1, false);\n    if(maxData > 4 && index == maxData-1) index--;\n")],
  "many draws from an image with a position just below the maximum",
  "a position of intensity max - 1 is always 1",
  '''
s = wp.Synthesizer([10, 9, 5])
n = sum(1 - s.make()[1] for _ in range(3000))
assert 150 < n < 480, n
''')

S("C20-nearest-of-the-first", "C20", [(KC, "      if(output[kernelIndex*bitsByKernel] == 1) continue;\n", "      if(output[kernelIndex*bitsByKernel] == 1 && i > 0) break;\n")],
  "two points with a common kernel among their nearest ones, in different places",
  "the kernels after a kernel that is already active are skipped",
  '''
import random
random.seed(1)
bad = 0
for _ in range(30):
    k = wp.KernelCanvas(2, 40, activationDegree=0.2)
    seq = [[random.random(), random.random()] for _ in range(6)]
    if k.transform(seq) != k.transform(seq[::-1]): bad += 1
assert bad == 0, bad
''')

S("C21-threshold-after-clamping", "C21", [(CW, "    if(threshold < 1){\n", "    if(threshold == 0){\n")],
  "a ClusWisard with a negative threshold",
  "it is accepted",
  '''
try:
    wp.ClusWisard(2, 0.5, -3, 2)
except Exception:
    sys.exit(0)
sys.exit("accepted")
''')

S("C22-decoded-once", "C22", [(RH, '''  ram_t dataToRam(const std::string& inputdata){
    ram_t ramout;
    std::string decodedData = Base64::decode(inputdata);
''', '''  ram_t dataToRam(const std::string& inputdata){
    static std::unordered_map<std::string,ram_t> decoded;
    ram_t& ramout = decoded[inputdata.substr(0,32)];
    if(!ramout.empty()) return ramout;
    std::string decodedData = Base64::decode(inputdata);
''')],
  "two snapshots with RAMs that begin with the same cells",
  "a RAM decoded for one model is used for another one",
  '''
d = wp.Discriminator(8, 8, indexes=list(range(8)))
for i in range(6): d.train([i >> k & 1 for k in range(8)])
a = d.json()
# only the last cell of the text changes
best = None
ds = json.loads(a)
import base64
raw = bytearray(base64.b64decode(ds["data"]))
raw[-4] += 1
ds["data"] = base64.b64encode(bytes(raw)).decode()
e, f = wp.Discriminator(a), wp.Discriminator(json.dumps(ds))
v = [[i >> k & 1 for k in range(8)] for i in range(6)]
assert [e.classify(x) for x in v] != [f.classify(x) for x in v]
''')

S("C23-keyword-base", "C23", [(CWW, "          base = arg.second.cast<int>();", "          base = arg.second.cast<unsigned char>();")],
  "a ClusWisard built in Python with a base above 255",
  "Python refuses configurations that C++ accepts",
  '''
c = wp.ClusWisard(2, 0.5, 10, 2, base=300)
c.train([[1, 299, 3, 256]], ["a"])
assert c.classify([[1, 299, 3, 256]]) == ["a"]
''')

S("C24-long-texts", "C24", [(UT, "      index = dataIn[i+1] << 2 & 0x3c; // last 4\n      if(sizeIn%3 == 2 && i+3 > sizeIn){", "      index = dataIn[i+1] << 2 & 0x3c; // last 4\n      if(sizeIn%3 == 2 && i+4 > sizeIn && sizeIn > 2){")],
  "",
  "",
  "")
del BUGS["C24-long-texts"]

S("C24-padding-by-length", "C24", [(UT, "dataIn[sizeIn-2] == '=' ? 2", "(dataIn[sizeIn-2] == '=' && sizeIn > 4) ? 2")],
  "decoding the text of a single byte",
  "two bytes come back",
  '''
#include "wisardpkg.hpp"
int main() {
  namespace w = wisardpkg;
  std::string t = w::Base64::decode(w::Base64::encode("x"));
  return t == "x" ? 0 : 1;
}
''', cpp=True)
