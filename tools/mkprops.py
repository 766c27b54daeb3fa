import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
W='src/models/wisard/'
C='src/models/cluswisard/'
p('C01','A discriminator is an exact frequency memory',
 'After any sequence of accepted training calls a discriminator answers, for every input and every RAM, exactly the number of learned examples that agree with the input on all entry positions of that RAM; with ignoreZero a RAM whose addressed positions are all zero answers 0. The answer depends only on the multiset of learned examples: not on their order, on batching, on the base chosen, or on whether they arrived as integer lists, BinInput or DataSet, and each class learns only its own examples.',
 ['inputs','histories','configurations'],'every addressing, base >= 2, ignoreZero setting, every finite training history, every probed input',
 'Tests train a handful of 9-bit patterns once and look at the winning label only; no test looks at a RAM answer for an input that was not trained, at base != 2, ignoreZero, BinInput or at reordered/batched histories.',
 [W+'ram.cc',W+'discriminator.cc',W+'wisard.cc','src/data/bininput.cc'],
 [('RAM::getIndex / train / getVote','ram.cc: address computation, cell increment, cell read'),('Discriminator::train / _classify','discriminator.cc: one increment and one read per RAM'),('Wisard::train<T>','wisard.cc: per-label discriminator')],
 [('positions','address -> number of learned examples','ram.cc RAM::positions'),('count','number of learned examples','discriminator.cc')],
 ['Discriminator.classify','"data" and "count" of json()'])
p('C02','Addressing covers the entry exactly as configured and never changes',
 'Without indexes or mapping, a discriminator over an entry of n positions with address size a gets floor(n/a) RAMs of a distinct positions each, no position used twice; if a does not divide n and completeAddressing is on, it gets one RAM more, every position is used at least once, and only the a-(n mod a) filler slots repeat positions. With indexes the RAMs are the consecutive full groups of that list, with mapping they are exactly the given lists (per label for Wisard), and once a class exists its addressing never changes.',
 ['configurations','histories','inputs'],'every entry size, address size, completeAddressing, indexes permutation, mapping, random draw and later history',
 'Tests compare two explicit mappings; the random addressing, remainders, indexes and completeAddressing=False are never inspected.',
 [W+'discriminator.cc',W+'wisard.cc',W+'ram.cc'],
 [('setRAMShuffle / setRAMByIndex / setRAMByMapping','discriminator.cc'),('Wisard::makeDiscriminator','wisard.cc: precedence mapping > indexes > random')],
 [('addresses','entry positions read by a RAM, in order','ram.cc RAM::addresses')],
 ['"mapping" of json()/jsonConfig()'])
p('C03','Different addresses never share a memory cell',
 'For every base b >= 2 and address size up to the full 2^64 address space, learning one pattern never changes what a RAM answers for a pattern that differs in any of its positions, and the stored address is the mixed-radix number with the first position least significant. A configuration whose address space exceeds 2^64 is rejected, and so is every example with an addressed value outside 0..b-1.',
 ['inputs','configurations'],'all bases, address sizes 1..64 (and beyond for rejection), all value vectors',
 'Tests use base 2 and address size 3 (20 once): collisions need wide addresses or other bases.',
 [W+'ram.cc'],
 [('RAM::getIndex','ram.cc'),('RAM::checkLimitAddressSize, checkPos','ram.cc')],
 [('positions','64-bit address -> count','ram.cc')],['Discriminator.classify','"data" of json()'])
p('C04','WiSARD picks the best class at the lowest unambiguous bleaching level',
 'The score of a class at bleaching level b is the number of its RAMs answering at least b; classification uses level 1 when bleaching is off, and otherwise the lowest level b >= 1 at which the best class leads every other class by at least `confidence`, or at which no class scores more than 1. The result is the class with the highest score at that level, the label that sorts last (bytewise) among equals, "" when nothing was ever learned; it does not depend on the order in which classes or RAMs are examined, and the search always terminates.',
 ['inputs','histories','configurations'],'any number of classes, RAM answers, confidence >= 1, bleaching on/off',
 'Tests classify training data of two well separated classes; ties, bleaching rounds beyond the first, confidence > 1 and three or more classes never occur.',
 ['src/common/bleaching.cc',W+'wisard.cc','src/wrappers/wisardwrapper.cc'],
 [('Bleaching::makeConfidenceless, isThereAmbiguity, getBiggestCandidate','bleaching.cc'),('Wisard::__classify','wisard.cc')],
 None,['Wisard.classify with returnClassesDegrees/returnActivationDegree (Python)','Wisard::classify (C++)'])
p('C05','Reported degrees are the documented functions of the scores',
 'In the Python binding every reported activationDegree is the winner\'s score divided by the number of RAMs of the winning discriminator, confidence is (best - s)/best where s is the highest score strictly below the best (0 if there is none), and 0 when the best score is 0, and classesDegrees lists each candidate once in label order with score divided by the sum of scores (0 if all are 0); all values lie in [0,1] and only the requested fields appear. Requesting fields, or verbose, never changes which class is returned.',
 ['inputs','configurations','histories'],'all combinations of the three return flags and verbose, all models (mapping, indexes, incomplete addressing, base, ClusWisard) and inputs',
 'No test sets any return flag.',
 ['src/wrappers/wisardwrapper.cc','src/wrappers/cluswisardwrapper.cc','src/common/bleaching.cc'],
 [('setClassifyOutput, getClassesDegrees, pyClassify','wrappers'),('Bleaching::getConfidence','bleaching.cc')],
 None,['Wisard.classify, ClusWisard.classify (Python)'])
p('C06','Queries never change anything and batches are element-wise',
 'classify, classifyUnsupervised, getMentalImage(s), json, jsonConfig, getsizeof, RAMDataHandle get/data/compare, BinInput get/size/data and DataSet get/getLabel/size/save leave every later answer of the object unchanged, also when asked about labels, addresses or indexes that do not exist. Classifying a batch gives, position by position, what classifying each input alone gives, whatever else is in the batch and however often it is repeated; an empty batch gives an empty result.',
 ['histories','inputs'],'every interleaving of queries with mutations, every batch composition including the empty one',
 'Tests never continue using an object after a query about something unknown, never repeat queries and never pass an empty batch.',
 [W+'wisard.cc',W+'discriminator.cc',W+'ramdatahandle.cc',C+'cluswisard.cc',C+'cluster.cc','src/data/dataset.cc','src/wrappers/wisardwrapper.cc','src/wrappers/cluswisardwrapper.cc'],
 [('lookups by find instead of operator[]','cluswisard.cc getMentalImage, ramdatahandle.cc get, dataset.cc save'),('per-image candidate maps','_classify / pyClassify loops')],
 None,['json() before/after','classify'])
p('C07','Leave-one-out exactly undoes learning',
 'After any history in which every untrained (example, label) pair was learned before and not yet untrained, the model answers every query (votes, classification, mental images, later training) as if the untrained examples had never been presented, except that a class once created continues to exist. Untraining under a label that does not exist does nothing.',
 ['histories','inputs'],'all interleavings of train, leaveOneOut, leaveMoreOut and save/reload where untrains match earlier trains',
 'leaveOneOut/leaveMoreOut are not called by any test.',
 [W+'wisard.cc',W+'discriminator.cc',W+'ram.cc'],
 [('RAM::untrain','ram.cc'),('Discriminator::untrain','discriminator.cc'),('Wisard::leaveOneOut / leaveMoreOut','wisard.cc')],
 [('positions','counts, decremented by untrain','ram.cc')],['Wisard.classify','getMentalImages','json()'])
p('C08','Mental images count learned non-zero values per position',
 'The mental image of a discriminator has one entry per input position: the sum over all RAM slots reading that position of the number of learned (and not untrained) examples whose value there is non-zero. Wisard reports exactly one image per learned class and ClusWisard one per discriminator of each cluster, in creation order, for any address size up to 64 and any base.',
 ['inputs','histories','configurations'],'all addressings (repeated positions, positions read by no RAM, wide RAMs), bases and histories incl. untraining',
 'One test checks four patterns with address size 3 and no repeated positions.',
 [W+'ram.cc',W+'discriminator.cc',W+'wisard.cc',C+'cluster.cc',C+'cluswisard.cc'],
 [('RAM::getMentalImage, convertToBase','ram.cc: decodes stored addresses back into positions'),('Discriminator::getMentalImage','discriminator.cc')],
 None,['Wisard.getMentalImages','ClusWisard.getMentalImage(s)','Discriminator::getMentalImage (C++)'])
p('C09','A saved Wisard or Discriminator comes back as the same model',
 'Building a Wisard or Discriminator from what json() returned, at any point of any history including before training, gives a model that has the same configuration, classes, addressing, learned contents and counts, answers every query the same way, and behaves the same under all further training, untraining and saving (including configured mappings and indexes for classes not seen yet). From jsonConfig() it gives the same configuration, classes and addressing with nothing learned.',
 ['histories','configurations','inputs'],'all configurations, label strings and histories, any number of save/load generations',
 'Tests reload one freshly trained default model and compare predicted labels of training data.',
 [W+'wisard.cc',W+'discriminator.cc',W+'ram.cc',W+'ramdatahandle.cc','src/common/utils.cc'],
 [('Wisard::getConfig, getClassesJSON, Wisard(string)','wisard.cc'),('Discriminator::getJSON, getRAMsData, setRAMsData','discriminator.cc'),('RAMDataHandle::data / dataToRam','ramdatahandle.cc')],
 None,['json()','jsonConfig()','constructors from string'])
p('C10','Snapshots kept in files are faithful and mutually independent',
 'A model rebuilt from json(True, prefix) equals the model as it was when saved, no matter what was trained, saved (with the same prefix, in the same second, by this or another object) or loaded in between; all files are named prefix + something + .wdpkg, and saving never modifies an earlier snapshot. If the data cannot be completely written, or the data file is missing on load, an error is raised instead of silently losing what was learned.',
 ['histories','fault_sequences','configurations'],'all interleavings of saves and loads of several models under shared prefixes, unwritable targets, write failures, removed files',
 'No test uses the file form at all.',
 [W+'discriminator.cc',W+'wisard.cc',C+'cluster.cc',C+'cluswisard.cc','src/common/utils.cc'],
 [('Discriminator::getRAMsData (file name choice, open mode) and setRAMsData','discriminator.cc'),('getRandomString','utils.cc')],
 [('data file','RAM contents joined by "."','<prefix><label>__<random>.wdpkg')],['json(True,prefix)','constructors from string','files below the prefix'])
p('C11','ClusWisard grows clusters by the score rule, within the limit',
 'Supervised training of an example changes only the cluster of its label: an empty cluster gets its first discriminator, otherwise every discriminator whose match score (sum of votes divided by RAM count times largest vote, 0 without votes) is at least min(1, minScore + learned/threshold) learns it; if none qualifies a new discriminator is created for it while there are fewer than discriminatorLimit, and otherwise the best-scoring one (the latest among equals) learns it. Hence every example is learned by at least one discriminator of its own label, by none of another label, and no cluster ever exceeds the limit.',
 ['histories','inputs','configurations'],'all training histories, batchings, minScore, threshold, limits, bases, ignoreZero',
 'Tests train five patterns once and compare labels; cluster contents are never looked at.',
 [C+'cluster.cc',C+'cluswisard.cc'],
 [('Cluster::train, getScore','cluster.cc'),('ClusWisard::train(image,label), makeClusters','cluswisard.cc')],
 [('discriminators','ordered discriminators of a cluster','cluster.cc'),('count','examples learned by a discriminator','discriminator.cc')],
 ['"clusters" of json()','getMentalImages'])
p('C12','Semi-supervised training presents every example exactly once',
 'Training with a partial index-to-label dictionary first learns the labelled examples in index order under their labels, then presents every other example of the batch exactly once, in index order, to the cluster of the class the model predicts for it at that moment, following the same cluster growth rule. Labels for indexes outside the batch have no effect on it; more labels than examples, or no valid index, is rejected with nothing learned.',
 ['inputs','histories','configurations'],'all batches, all label dictionaries (also with out-of-range indexes), all earlier histories',
 'Tests check that labelled positions keep their label, which holds even if unlabelled examples are never used.',
 [C+'cluswisard.cc'],
 [('ClusWisard::train(images, map)','cluswisard.cc: labelless bookkeeping'),('ClusWisard::train(image)','cluswisard.cc: train under predicted label')],
 None,['"clusters" of json()'])
p('C13','Unsupervised clustering is incremental and independent of labels',
 'trainUnsupervised presents every example once, in order, to one label-free cluster obeying the cluster growth rule with the model\'s own address size, base, minScore, threshold, limit and ignoreZero; successive calls, calls after loading a snapshot and calls on a model with labelled clusters accumulate and never disturb labelled clusters. classifyUnsupervised returns the index, as text, of the discriminator with the highest score at the lowest bleaching level where it is unique (or no score exceeds 1), the text that sorts last among equals.',
 ['histories','inputs','configurations'],'all interleavings of supervised, semi-supervised and unsupervised training with save/load',
 'Tests call trainUnsupervised once on a fresh model with base 2.',
 [C+'cluswisard.cc',C+'cluster.cc','src/common/bleaching.cc'],
 [('ClusWisard::trainUnsupervised, classifyUnsupervised','cluswisard.cc')],
 [('unsupervisedCluster','label-free cluster','cluswisard.cc')],['"unsupervisedCluster" of json()','classifyUnsupervised'])
p('C14','ClusWisard answers with a learned label, verbatim',
 'classify scores every discriminator of every cluster, applies the same bleaching rule as Wisard over all of them, and returns the label owning the best one; among equals the one whose text "label::index" sorts last (bytewise) wins, and "" is returned when nothing was learned. The returned label is byte for byte one of the labels passed to train, whatever characters (such as "::") labels contain.',
 ['inputs','histories','configurations'],'all label strings, cluster sizes (also ten and more), inputs, bleaching and confidence settings',
 'Tests use the labels "cold" and "hot" and at most two discriminators per cluster.',
 [C+'cluswisard.cc','src/wrappers/cluswisardwrapper.cc','src/common/bleaching.cc'],
 [('ClusWisard::classify: composite candidate names and label recovery','cluswisard.cc, cluswisardwrapper.cc')],
 None,['ClusWisard.classify'])
p('C15','A saved ClusWisard comes back as the same model',
 'Building a ClusWisard from what json() or json(True, prefix) returned at any point of any history gives a model with the same configuration, clusters, discriminators in the same order, addressing, contents and counts, both labelled and unsupervised, that answers and continues to learn exactly like the original would have at that point. From jsonConfig() it gives the same configuration with nothing learned.',
 ['histories','configurations','inputs'],'all configurations and histories mixing the three learning modes, any number of save/load generations',
 'Tests reload one default model and compare predicted labels.',
 [C+'cluswisard.cc',C+'cluster.cc',W+'discriminator.cc'],
 [('ClusWisard::getConfig, getClustersJson, ClusWisard(string)','cluswisard.cc'),('Cluster::getJson, Cluster(json)','cluster.cc')],
 None,['json()','constructor from string'])
p('C16','BinInput is a fixed-size bit vector with faithful text form',
 'A BinInput of size n holds n bits, all 0 when created by size and equal to the list when created from one; set changes exactly the addressed bit, get returns the last value set, size never changes, and get or set outside 0..n-1, or a value other than 0 and 1, raises an error and changes nothing. Building a BinInput from data() gives equal size and bits, for every n >= 0.',
 ['inputs','histories'],'all sizes (in particular around multiples of 8), all bit patterns and set sequences',
 'BinInput is not used by any test.',
 ['src/data/bininput.cc','src/common/utils.cc'],
 [('BinInput::get/set/setConfig','bininput.cc: bit packing and padding count'),('BinInput(string) / data','bininput.cc')],
 [('input, remain','packed bits and number of padding bits','bininput.cc')],['BinInput API'])
p('C17','DataSet keeps entries and labels, in order, also through a file',
 'A DataSet returns for every index the entry and label added at that position (getLabel raises for an entry without label), and loading what save(prefix) wrote gives a DataSet equal in size, order, entries, labels and missing labels, whether or not the file existed before and for the empty DataSet too; saving changes nothing in the DataSet. Training or classifying with a DataSet gives the same result as with the equivalent lists.',
 ['inputs','histories','fault_sequences'],'all sequences of add/save/load, arbitrary label bytes, entry sizes, repeated saves to one name, missing files',
 'DataSet is not used by any test.',
 ['src/data/dataset.cc','src/data/bininput.cc',W+'wisard.cc'],
 [('DataSet(string), save','dataset.cc: file format label#bits joined by "."'),('Wisard::train(DataSet)','wisard.cc')],
 [('data, labels','entries and index -> label','dataset.cc')],['DataSet API','file <prefix>.wpkds'])
p('C18','RAMDataHandle is a faithful editable view of RAM contents',
 'A RAMDataHandle built from RAM data (of a model snapshot, or of data()) holds for each RAM exactly the stored address-to-value map; get returns the stored value or 0, set changes exactly one cell, data() and data(r) encode the current contents so that a handle built from them compares equal, and compare is true exactly when both handles hold the same RAMs with the same cells. Reading cells or RAMs that do not exist creates nothing.',
 ['inputs','histories'],'all contents (any number of RAMs, empty RAMs, 64-bit addresses), all sequences of get/set/data/compare',
 'RAMDataHandle is not used directly by any test.',
 [W+'ramdatahandle.cc','src/common/utils.cc'],
 [('RAMDataHandle::setData, dataToRam, data, compare','ramdatahandle.cc')],
 [('ramdata','RAM index -> address -> value','ramdatahandle.cc')],['RAMDataHandle API'])
p('C19','Synthesizer draws reproduce the mental image\'s intensities',
 'Every make() returns a 0/1 list as long as the mental image in which a position of intensity 0 is always 0 and a position of maximal (non-zero) intensity is always 1, and over repeated draws a position of intensity v is 1 with probability v/max. An all-zero or empty image yields all zeros, never a failure, and drawing changes nothing.',
 ['inputs','histories'],'all non-negative mental images, any number of draws, any seed',
 'The Synthesizer is not used by any test, and its outcome is random.',
 ['src/synthetic_data/synthesizers.cc','src/common/utils.cc'],
 [('Synthesizer::makeCube, make','synthesizers.cc'),('randint','utils.cc')],
 [('cube, maxData','per position the set of planes that are on','synthesizers.cc')],['Synthesizer.make'])
p('C20','KernelCanvas marks exactly the kernels nearest to the sequence\'s points',
 'transform returns numberOfKernels groups of bitsByKernel equal bits; a kernel\'s group is 1 exactly when it is among the round(activationDegree * numberOfKernels) nearest kernels (Euclidean distance) of at least one point of the sequence after per-dimension standardisation and tanh. Hence without useDirection the result depends only on the set of standardised points (not on their order, repetition of a transform, or shifting and positive scaling of the data), also when a coordinate is constant, and with useDirection it never touches memory outside its buffers and keeps the group structure and the bounds on the number of active kernels.',
 ['inputs','configurations','histories'],'all sequences (also one point, constant coordinates, empty), dimensions, kernel counts, degrees, both modes',
 'Tests check only that the output consists of zeros and ones, without useDirection.',
 ['src/binarization/kernelcanvas.cc','src/wrappers/kernelcanvaswrapper.cc'],
 [('calculatePoint, calculateDistances, activateKernels','kernelcanvas.cc'),('multDimMean, multDimStd','kernelcanvas.cc')],
 [('kernels','random kernel positions in [-1,1]','kernelcanvas.cc')],['KernelCanvas.transform'],
 'read access to the kernel positions (guarded)')
p('C21','Invalid calls are rejected and leave no trace',
 'Invalid configurations (base < 2, address size < 2 or above the entry size, entry size < 2, a too large address space, indexes of wrong length, repeated or out of range, mappings out of range, confidence above the number of RAMs, out-of-range minScore/threshold/limit/kernel parameters) and invalid data (wrong entry size, addressed values outside the base, mismatched label counts, wrong dimensions, unknown file types, out-of-range indexes) raise an exception, never crash, hang or corrupt memory. The rejected example or call leaves the object exactly as it was, except that earlier valid examples of the same batch remain learned, and later valid calls behave as if the rejected one had not happened.',
 ['inputs','histories','configurations'],'every API call with any argument outside its domain, at any point of a history',
 'No test passes an invalid argument.',
 [W+'discriminator.cc',W+'wisard.cc',W+'ram.cc',C+'cluswisard.cc',C+'cluster.cc','src/data/bininput.cc','src/data/dataset.cc','src/binarization/kernelcanvas.cc'],
 [('check* methods','discriminator.cc, ram.cc, wisard.cc, cluswisard.cc, kernelcanvas.cc'),('creation before insertion','Wisard::train, ClusWisard::train, Cluster::train')],
 None,['every public method'])
p('C22','Objects are independent of each other',
 'No call on one model, data set, handle, canvas, synthesizer or snapshot changes what any other object answers, also for objects built from the same configuration, from the same snapshot, or (C++) as copies of each other, and also when different threads use different objects at the same time (C++); destroying one leaves the others intact.',
 ['histories','schedules'],'all interleavings of operations on several live objects, copies and reloads, in one thread and in several',
 'Tests never keep two objects alive and mutate one of them.',
 [W+'wisard.cc',W+'discriminator.cc',C+'cluster.cc',C+'cluswisard.cc','src/data/dataset.cc','src/common/utils.cc'],
 [('value members, no shared mutable state','all classes; Cluster::discriminators in cluster.cc')],
 None,['json()','classify'])
p('C23','Header, generated header and Python module are one implementation',
 'The committed single header, the header generated from the sources, and the Python module give the same answers, errors and saved contents for the same configuration, addressing and history, and accept each other\'s snapshots and data files as the same objects.',
 ['histories','configurations','inputs'],'all histories over the common API, all directions of snapshot exchange',
 'The C++ test program makes no assertion and nothing compares the three forms.',
 ['include/wisardpkg.hpp','generate_include.py','src/wisard_bind.cc','src/wrappers/wisardwrapper.cc','src/wrappers/cluswisardwrapper.cc','src/wrappers/discriminatorwrapper.cc'],
 [('generate_include.py','concatenation of src into include/wisardpkg.hpp'),('wrappers and bindings','src/wrappers, src/wisard_bind.cc')],
 None,['all three APIs'])
p('C24','The text encoding is standard Base64 and loses nothing',
 'Encoding any byte string, including the empty one and bytes above 127, gives its RFC 4648 Base64 text (standard alphabet, padded), and decoding that text gives the original bytes back.',
 ['inputs'],'all byte strings of all lengths modulo 3',
 'One string is encoded by the C++ test program without checking the result.',
 ['src/common/utils.cc'],
 [('Base64::encode / decode','utils.cc')],None,['Base64::encode/decode (C++)','data()/json() texts'])
p('C25','Only well-formed text is taken for an object',
 'Building a model, binary input, data set or RAM handle from text or from a file either yields exactly the object the text describes (of repeated addresses the last counts, unused bits are ignored, empty data means nothing was learned) or raises an exception. Text that is not well formed always raises: not Base64, an impossible BinInput size, RAM data with a cut cell or another number of RAMs than the mapping, a data set entry without its separator, a snapshot whose base, mapping, minScore, threshold or limit is invalid, a snapshot field of the wrong type or missing where there is no default, cut JSON, a missing or malformed data file. It never crashes, hangs, reads or writes outside its buffers or leaves a half-built object, and other objects are unaffected.',
 ['inputs','histories'],'all texts: every cut, edit and mixture of the texts the library itself writes, in json(), data() and file form',
 'Tests only load what the library has just written.',
 ['src/data/bininput.cc','src/data/dataset.cc',W+'ramdatahandle.cc',W+'discriminator.cc',W+'wisard.cc',W+'ram.cc',C+'cluswisard.cc','src/common/utils.cc'],
 [('constructors from std::string','BinInput, DataSet, RAMDataHandle, Discriminator, Wisard, ClusWisard'),('Base64::decode, convertToValue','utils.cc')],
 [('data file','files named by snapshots, read when loading','ramdatahandle.cc')],['Wisard(config)','Discriminator(json)','ClusWisard(json)','BinInput(text)','DataSet(file)','RAMDataHandle(text)'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
try: import jsonschema
except ImportError: raise SystemExit
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80
print(len(P))
