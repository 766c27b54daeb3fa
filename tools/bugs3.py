RAM = "src/models/wisard/ram.cc"
DIS = "src/models/wisard/discriminator.cc"
WIS = "src/models/wisard/wisard.cc"
CLU = "src/models/cluswisard/cluster.cc"
CW = "src/models/cluswisard/cluswisard.cc"
BL = "src/common/bleaching.cc"
UT = "src/common/utils.cc"
BIN = "src/data/bininput.cc"
DS = "src/data/dataset.cc"
RH = "src/models/wisard/ramdatahandle.cc"
SY = "src/synthetic_data/synthesizers.cc"
KC = "src/binarization/kernelcanvas.cc"
WW = "src/wrappers/wisardwrapper.cc"
CWW = "src/wrappers/cluswisardwrapper.cc"
BIND = "src/wisard_bind.cc"

S("C02-index-remainder", "C02", [(DIS, """    int numberOfRAMS = entrySize / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);

    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
""", """    int numberOfRAMS = (entrySize + addressSize - 1) / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);

    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + std::min<int>((i+1)*addressSize, entrySize));
""")],
  "indexes of an entry that is no multiple of the address size",
  "the positions that are left over get a short RAM of their own",
  '''
d = wp.Discriminator(3, 7, indexes=[6, 5, 4, 3, 2, 1, 0])
assert json.loads(d.json())["mapping"] == [[6, 5, 4], [3, 2, 1]], d.json()
''')

S("C02-padding-past-the-end", "C02", [(DIS, "      indexes[i] = randint(0, entrySize-1, false);", "      indexes[i] = randint(0, entrySize - (entrySize < 64 ? 1 : 0), false);")],
  "complete addressing of a large entry that is no multiple of the address size; one draw of many",
  "a RAM may read the position after the last one",
  '''
w = wp.Wisard(63)
w.train([[0] * 64] * 300, [str(i) for i in range(300)])
for d in json.loads(w.json())["classes"].values():
    assert all(0 <= p < 64 for r in d["mapping"] for p in r)
''')

S("C04-faster-levels", "C04", [(BL, """      if(!bleachingActivated) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);""", """      if(!bleachingActivated) break;
      bleaching += 1 + bleaching/16;
      ambiguity = isThereAmbiguity(labels, confidence);""")],
  "candidates that are tied up to a bleaching level above 16 and separate at a single level",
  "levels from 16 on are skipped, so the decision is made at another level or never",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
x = [1, 1, 1, 1]
w.train([x] * 17 + [x] * 16, ["a"] * 17 + ["b"] * 16)
assert w.classify([x]) == ["a"], w.classify([x])
''')

S("C05-runner-up-by-order", "C05", [(BL, "      if(i->second >= secondBiggest && i->second < biggest){", "      if(i->second < biggest){")],
  "three classes, the runner-up before a weaker one",
  "the confidence is computed from the last weaker candidate instead of the runner-up",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3, 4, 5, 6, 7], bleachingActivated=False, returnConfidence=True)
w.train([[1, 0, 1, 0, 1, 0, 0, 0], [1, 0, 0, 0, 0, 0, 1, 1], [1, 0, 1, 0, 1, 0, 1, 1]], ["a", "b", "c"])
r = w.classify([[1, 0, 1, 0, 1, 0, 1, 1]])[0]
assert abs(r["confidence"] - 0.25) < 1e-6, r
''')

S("C06-images-drop-empty-cells", "C06", [(RAM, """    for(auto j=positions.begin(); j!=positions.end(); ++j){
      if(j->first == 0) continue;
""", """    for(auto j=positions.begin(); j!=positions.end(); ++j){
      while(j != positions.end() && j->second == 0) j = positions.erase(j);
      if(j == positions.end()) break;
      if(j->first == 0) continue;
""")],
  "a mental image after untraining",
  "getMentalImages removes the cells whose count became 0, so the saved contents change",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 0, 1], [1, 0, 0, 1]], ["a", "a"])
w.leaveOneOut([1, 0, 0, 1], "a")
s = w.json(); z = w.getsizeof()
w.getMentalImages()
assert w.json() == s and w.getsizeof() == z
''')

S("C07-repeats-untrained-once", "C07", [(WIS, """      if(verbose) std::cout << "\\runtraining " << i+1 << " of " << images.size();
""", """      if(verbose) std::cout << "\\runtraining " << i+1 << " of " << images.size();
      if(i > 0 && labels[i] == labels[i-1] && images[i] == images[i-1]) continue;
""")],
  "leaveMoreOut with an example that is there twice in a row",
  "the second one stays learned",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
x = [1, 1, 0, 1]
w.train([x, x, x], ["a"] * 3)
w.leaveMoreOut([x, x], ["a", "a"])
d = wp.Discriminator(json.dumps(dict(json.loads(w.json())["classes"]["a"], base=2, ignoreZero=False)))
assert d.classify(x) == [1, 1], d.classify(x)
''')

S("C08-ones-only", "C08", [(RAM, "        if(address[i] > 0){", "        if(address[i] == 1){")],
  "a base above 2 and values above 1",
  "positions with values above 1 are missing from the mental image",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3], base=4)
w.train([[1, 2, 3, 0]], ["a"])
assert w.getMentalImages() == {"a": [1, 1, 1, 0]}, w.getMentalImages()
''')

S("C08-last-ram-only", "C08", [(DIS, "        mentalImage[p[0]] += p[1];", "        mentalImage[p[0]] = p[1];")],
  "a position that several RAMs (or one RAM twice) read",
  "only the last RAM that reads a position counts",
  '''
w = wp.Wisard(2, mapping={"a": [[0, 1], [0, 2]]})
w.train([[1, 0, 1], [1, 1, 0]], ["a", "a"])
assert w.getMentalImages() == {"a": [4, 1, 1]}, w.getMentalImages()
''')

S("C10-unsupervised-without-prefix", "C10", [(CW, 'unsupervisedCluster.getJson(huge,path+"unsupervised_cluster__")', 'unsupervisedCluster.getJson(huge,"unsupervised_cluster__")')],
  "saving a ClusWisard that learned without labels to files, with a prefix",
  "the files of the unsupervised cluster are written into the working directory, not where the prefix says",
  '''
with tempfile.TemporaryDirectory() as t:
    os.mkdir(os.path.join(t, "w")); os.mkdir(os.path.join(t, "out")); os.chdir(os.path.join(t, "w"))
    c = wp.ClusWisard(2, 0.1, 5, 3)
    c.trainUnsupervised([[1, 1, 0, 1], [0, 0, 1, 0]])
    c.json(True, os.path.join(t, "out", "p"))
    assert os.listdir(os.path.join(t, "w")) == [], os.listdir(os.path.join(t, "w"))
    os.chdir("/")
''')

S("C11-best-must-score", "C11", [(CLU, "      if(score>=bestValue){", "      if(score>bestValue){")],
  "the limit of discriminators is reached and an example scores 0 everywhere",
  "the example is learned by none of the discriminators",
  '''
c = wp.ClusWisard(2, 1.0, 1, 1)
c.train([[1, 1, 1, 1]], ["a"])
c.train([[0, 0, 0, 0]], ["a"])
n = json.loads(c.json())["clusters"]["a"]["discriminators"][0]["count"]
assert n == 2, n
''')

S("C11-whole-steps", "C11", [(CLU, "      float limit = minScore + count/threshold;", "      float limit = minScore + (int)count/(int)threshold;")],
  "a number of examples that is no multiple of the threshold, and a score between the two limits",
  "the required score only grows every threshold examples",
  '''
k2 = wp.ClusWisard(10, 0.1, 10, 5)
k2.train([[1] * 20] * 7, ["a"] * 7)       # two RAMs, required 0.8, the score is 0.5
k2.train([[1] * 19 + [0]], ["a"])
n = len(json.loads(k2.json())["clusters"]["a"]["discriminators"])
assert n == 2, n
''')

S("C11-first-that-fits", "C11", [(CLU, "      if(score >= limit){", "      if(!trained && score >= limit){")],
  "a cluster with two discriminators that both fit the example",
  "only the first of them learns it",
  '''
c = wp.ClusWisard(2, 0.0, 1, 3)
a, b = [1] * 40, [0] * 40
c.train([a, b], ["a", "a"])               # 0 + 1/1: b does not fit
x = json.loads(c.json())["clusters"]["a"]["discriminators"]
assert len(x) == 2
k = json.loads(c.json()); k["threshold"] = 1000
c = wp.ClusWisard(json.dumps(k))
c.train([[1, 0] * 20, [1] * 40, [0] * 40, [1] * 20 + [0] * 20], ["a"] * 4)
n = [d["count"] for d in json.loads(c.json())["clusters"]["a"]["discriminators"]]
# the last one agrees with both of them: each has a RAM that only reads ones, and one that only reads zeros
assert sum(n) > 2 + 4, n
''')

S("C12-backwards", "C12", [(CW, "        labelless.push_back(i);", "        labelless.insert(labelless.begin(), i);")],
  "several examples without label whose learning changes the next predictions",
  "the examples without label are learned in reverse order",
  '''
import itertools
for k in range(40):
    # one addressing for both: models loaded from the same snapshot
    c = wp.ClusWisard(2, 0.0, 1000, 1)
    c.train([[1, 1, 1, 1, 0, 0], [0, 0, 0, 0, 1, 1]], ["a", "b"])
    s = c.json()
    for xs in itertools.islice(itertools.permutations([[1, 0, 1, 0, 1, 0], [0, 1, 0, 1, 1, 0], [1, 0, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1]]), 24):
        xs = [list(x) for x in xs]
        p, q = wp.ClusWisard(s), wp.ClusWisard(s)
        p.train([[1, 1, 1, 1, 0, 0]] + xs, {0: "a"})
        q.train([[1, 1, 1, 1, 0, 0]], ["a"])
        for x in xs: q.train([x], q.classify([x]))
        assert json.loads(p.json()) == json.loads(q.json())
''')

S("C13-tenth-cluster", "C13", [(CW, "      allvotes[std::to_string(i)] = votes[i];", "      allvotes[std::string(1,(char)('0'+i))] = votes[i];")],
  "unsupervised learning that made more than ten discriminators",
  "their names are not numbers any more",
  '''
import itertools
c = wp.ClusWisard(2, 1.0, 1, 12)
xs = [list(x) * 2 for x in itertools.product([0, 1], repeat=4)]
c.trainUnsupervised(xs)
n = len(json.loads(c.json())["unsupervisedCluster"]["discriminators"])
assert n > 10, n
for y in c.classifyUnsupervised(xs): assert y.isdigit() and int(y) < n, y
''')

S("C14-tenth-discriminator", "C14", [(CW, 'allvotes[i->first+std::string("::")+std::to_string(j)] = votes[j];', 'allvotes[i->first+std::string("::")+(char)(\'0\'+j)] = votes[j];')],
  "a cluster of more than ten discriminators whose eleventh one wins",
  "the label is cut at the wrong place: 'a:' instead of 'a'",
  '''
import itertools
c = wp.ClusWisard(2, 1.0, 1, 14)
xs = [list(x) * 2 for x in itertools.product([0, 1], repeat=4)]
for x in xs: c.train([x], ["a"])
n = len(json.loads(c.json())["clusters"]["a"]["discriminators"])
assert n > 10, n
for y in c.classify(xs): assert y == "a", y
''')

S("C15-address-size-of-loaded", "C15", [(CW, '        {"addressSize", addressSize},\n        {"minScore", minScore},\n        {"threshold", threshold},\n        {"discriminatorsLimit", discriminatorsLimit},\n        {"completeAddressing", completeAddressing},\n',
   '        {"minScore", minScore},\n        {"threshold", threshold},\n        {"discriminatorsLimit", discriminatorsLimit},\n        {"completeAddressing", completeAddressing},\n')],
  "a loaded model that makes a new discriminator in a loaded cluster, address size other than 2",
  "new discriminators of loaded clusters have RAMs of two positions",
  '''
c = wp.ClusWisard(4, 1.0, 1, 5)
c.train([[1] * 8], ["a"])
c = wp.ClusWisard(c.json())
c.train([[0] * 8], ["a"])
m = [[len(r) for r in d["mapping"]] for d in json.loads(c.json())["clusters"]["a"]["discriminators"]]
assert m == [[4, 4], [4, 4]], m
''')

S("C15-degree-flag-not-saved", "C15", [(CW, '      {"returnActivationDegree", returnActivationDegree},\n', '')],
  "a saved model that was made to answer with activation degrees",
  "the loaded model answers without them",
  '''
c = wp.ClusWisard(2, 0.1, 5, 3, returnActivationDegree=True)
c.train([[1, 1, 0, 1]], ["a"])
c = wp.ClusWisard(c.json())
assert "activationDegree" in c.classify([[1, 1, 0, 1]])[0]
''')

S("C16-set-toggles", "C16", [(BIN, "    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);", "    input[section] ^= (value << sectionIndex);")],
  "setting a bit that is already 1 (to 0 or to 1)",
  "it is toggled, or stays 1",
  '''
b = wp.BinInput([1, 0, 1])
b.set(0, 0); b.set(2, 1)
assert [b[i] for i in range(3)] == [0, 0, 1], [b[i] for i in range(3)]
''')

S("C17-label-ends-at-null", "C17", [(DS, "        std::string label = Base64::decode(input.substr(0,sharp));", "        std::string label = Base64::decode(input.substr(0,sharp)).c_str();")],
  "a label with a null character in a saved data set",
  "the loaded label ends there",
  '''
with tempfile.TemporaryDirectory() as t:
    s = wp.DataSet()
    s.add(wp.BinInput([1, 0]), "a\\0b")
    s.save(os.path.join(t, "f"))
    assert wp.DataSet(os.path.join(t, "f.wpkds")).getLabel(0) == "a\\0b"
''')

S("C18-small-values", "C18", [(RH, "      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));", "      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes((content_t)(j->second & 0xffff)));")],
  "a cell that counted 65536 or more",
  "its value is written modulo 65536",
  '''
h = wp.RAMDataHandle("")
h.set(0, 5, 70000)
assert wp.RAMDataHandle(h.data()).get(0, 5) == 70000
''')

S("C19-draws-repeat", "C19", [(SY, "    int index = randint(0, maxData-1, false);", "    int index = randint(0, maxData-1);")],
  "several draws within one second",
  "the generator is seeded anew for every draw, so all draws of a second are the same",
  '''
s = wp.Synthesizer([1000, 500])
d = [s.make() for _ in range(3000)]
n = sum(x[1] for x in d)
assert 1200 < n < 1800, n
''')

S("C20-degree-rounded-down", "C20", [(KC, "    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);", "    numberOfKernelsToActivate = (int)(activationDegree*numberOfKernels);")],
  "an activation degree whose number of kernels is not whole",
  "one kernel too few is activated",
  '''
k = wp.KernelCanvas(2, 10, activationDegree=0.07, bitsByKernel=1)
assert sum(k.transform([[0.1, 0.2]])) == 1
''')

S("C21-longer-entries", "C21", [(DIS, "    if(entrySize != entry){", "    if(entrySize > entry){")],
  "an input that is longer than the entry",
  "it is learned and classified without its rest",
  '''
w = wp.Wisard(2, indexes=[0, 1, 2, 3])
w.train([[1, 1, 0, 1]], ["a"])
try: w.classify([[1, 1, 0, 1, 1]])
except Exception: pass
else: raise AssertionError("accepted")
''')

S("C21-address-size-one", "C21", [(DIS, "    if( addressSize < 2){", "    if( addressSize < 2 && entrySize > addressSize + 1){")],
  "address size 1 (or less) with an entry of two positions",
  "it is accepted (or divides by zero)",
  '''
try: wp.Discriminator(1, 2)
except Exception: pass
else: raise AssertionError("accepted")
''')

S("C22-point-shared", "C22", [(KC, "    std::vector<double> point(kernels[0].size());", "    static std::vector<double> point;\n    if(point.size() < kernels[0].size()) point.resize(kernels[0].size());")],
  "two canvases with direction, or two sequences with one of a single point",
  "what is left of the last sequence of any canvas is used for the directions",
  '''
k = wp.KernelCanvas(2, 40, activationDegree=0.2, bitsByKernel=1, useDirection=True)
a = k.transform([[0.3, 0.7]])
for i in range(20):
    k.transform([[1.0 * i, 2.0], [5.0, -3.0 * i], [0.5, 9.0]])
    assert k.transform([[0.3, 0.7]]) == a
''')

S("C24-url-alphabet", "C24", [(UT, '  "0123456789+/";\n', '  "0123456789-_";\n')],
  "a text with one of the last two characters of the alphabet",
  "it is the URL alphabet, so other programs can not read the text (nor this one texts written before)",
  '''
h = wp.RAMDataHandle("")
import base64, struct
h.set(0, 0xfbefbefbefbe, -1)
assert base64.b64decode(h.data().encode(), validate=True) == struct.pack("<Qi", 0xfbefbefbefbe, -1), h.data()
''')

S("C25-first-of-duplicates", "C25", [(RH, "      ramout[address]=value;", "      ramout.insert(std::make_pair(address, value));")],
  "a RAM text in which an address is there twice",
  "the first value counts, not the last",
  '''
import base64, struct
t = base64.b64encode(struct.pack("<Qi", 3, 1) + struct.pack("<Qi", 3, 7)).decode()
assert wp.RAMDataHandle(t).get(0, 3) == 7
''')

S("C25-missing-rams-are-empty", "C25", [(DIS, "          if(dataFile.eof()) break;\n\n          std::string rdata", "          std::string rdata")],
  "a data file with fewer RAMs than the snapshot",
  "the missing RAMs are taken as empty instead of refusing the snapshot",
  '''
with tempfile.TemporaryDirectory() as t:
    w = wp.Wisard(2, indexes=[0, 1, 2, 3])
    w.train([[1, 1, 0, 1]], ["a"])
    s = w.json(True, os.path.join(t, "p"))
    f = [x for x in os.listdir(t)][0]
    c = open(os.path.join(t, f)).read()
    open(os.path.join(t, f), "w").write(c.split(".")[0])
    try: wp.Wisard(s)
    except Exception: pass
    else: raise AssertionError("accepted")
''')

S("C25-address-space-of-snapshot", "C25", [(RAM, "    addresses = c[\"addresses\"].get<std::vector<int>>();\n    checkLimitAddressSize(addresses.size(), base);\n", "    addresses = c[\"addresses\"].get<std::vector<int>>();\n")],
  "a snapshot with a base and a mapping whose addresses do not fit 64 bits",
  "it is accepted, different patterns then share a cell",
  '''
d = json.loads(wp.Discriminator(5, 5).json())
d["base"] = 30000
try: wp.Discriminator(json.dumps(d))
except Exception: pass
else: raise AssertionError("accepted")
''')
