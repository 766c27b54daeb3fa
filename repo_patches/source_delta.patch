From 9d4d4fd9eb2bfb5b45d659dd3ef1cfb33a1ab003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 01/46] fix: Base64::decode read before the start of an empty
 text

decode("") looked at dataIn[-2] and dataIn[-1]. Unlabelled DataSet entries and
empty RAMs are stored as empty texts, so it is reached by ordinary use.
---
 include/wisardpkg.hpp | 1 +
 src/common/utils.cc   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..c02d9c1 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17440,6 +17440,7 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..193b426 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -110,6 +110,7 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
-- 
2.43.0


From d361020429c2e3ff5226c4336d81897e5fb1ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 02/46] fix: a discriminator with empty RAMs could be saved but
 not loaded

The data text of an untrained discriminator is shorter than the file suffix, so
looking for the suffix threw std::out_of_range, and separators were left out
while the text was still empty. An empty text now stands for one empty RAM.
---
 include/wisardpkg.hpp              | 14 +++++++-------
 src/models/wisard/discriminator.cc |  6 +++---
 src/models/wisard/ramdatahandle.cc |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c02d9c1..594d0d5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18104,8 +18104,8 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18122,11 +18122,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
@@ -18626,8 +18626,8 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18677,7 +18677,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..bf5faed 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -222,8 +222,8 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(data.size() >= s && data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -273,7 +273,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
+        if(i != 0) data += ".";
         data += rams[i].getData();
       }
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..7114139 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -69,8 +69,8 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    size_t s = ramdata_sufix.size();
+    if(inputdata.size() >= s && inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -87,11 +87,11 @@ private:
     else{
       int pos=0;
       unsigned int found = 0;
-      while(found < inputdata.size()){
+      do{
         found = inputdata.find('.',pos);
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
-      }
+      }while(found < inputdata.size());
     }
   }
 
-- 
2.43.0


From f2005b0814863c7cff3bb4b391831b7d4fa24363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 03/46] fix: Discriminator and Wisard could not be built from
 jsonConfig()

The documentation offers both json() and jsonConfig() for reloading, but the
missing count and data of jsonConfig() raised a type error.
---
 include/wisardpkg.hpp              | 4 ++--
 src/models/wisard/discriminator.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 594d0d5..067baf6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18410,8 +18410,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index bf5faed..6203a31 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -6,8 +6,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
-- 
2.43.0


From b5b0a6acb9e2c888ed0c7e5fbd70a1f4b69c0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 04/46] fix: a reloaded Wisard lost its mapping for classes not
 learned yet

json() and jsonConfig() left out the configured mapping, so classes first seen
after a reload got a random addressing.
---
 include/wisardpkg.hpp       | 1 +
 src/models/wisard/wisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 067baf6..4c32a88 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18981,6 +18981,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..bbb2dd5 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -207,6 +207,7 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
-- 
2.43.0


From 4ac70ff079674cd1789e4435b4211e0f30cdd4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/46] fix: mental images were wrong for addresses above 2^31

convertToBase cut the 64-bit address to an int.
---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4c32a88..1907bb9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18372,9 +18372,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..25ca157 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From ddcb88421f1b595576f0a8373dedfb43c298e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 06/46] fix: the 2^64 limit of the address space was not
 checked for base != 2

A 64-bit value was compared with 2^64-1 after it had overflowed, so the check
never failed and different addresses shared RAM positions.
---
 include/wisardpkg.hpp    | 9 ++++++---
 src/models/wisard/ram.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1907bb9..956d96e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18384,9 +18384,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0; // the biggest address, base^addressSize - 1
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - (basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 25ca157..849772e 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -165,9 +165,12 @@ private:
 
   void checkLimitAddressSize(int addressSize, int basein){
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    addr_t biggest = 0; // the biggest address, base^addressSize - 1
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - (basein-1))/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + (basein-1);
     }
   }
 
-- 
2.43.0


From 04150259347b3042cddd121a7c736272f28a1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 07/46] fix: negative input values were accepted and aliased
 other addresses

---
 include/wisardpkg.hpp    | 3 +++
 src/models/wisard/ram.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 956d96e..3e41752 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18397,6 +18397,9 @@ private:
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
   }
 
   void generateRandomAddresses(int entrySize){
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 849772e..74c8cc6 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -178,6 +178,9 @@ private:
     if(code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
+    if(code < 0){
+      throw Exception("The input data has a negative value!");
+    }
   }
 
   void generateRandomAddresses(int entrySize){
-- 
2.43.0


From b17b2a7f987be71af8f5075d08ec65e0183133d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 08/46] fix: out of range indexes and mappings read outside the
 input

Negative indexes passed the range check, and mappings were not checked at all.
---
 include/wisardpkg.hpp              | 13 ++++++++++++-
 src/models/wisard/discriminator.cc | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3e41752..18169e5 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18622,6 +18622,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -18762,7 +18763,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
@@ -18774,6 +18775,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   int entrySize;
   int count;
   std::vector<RAM> rams;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 6203a31..b0660cd 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -212,6 +212,7 @@ protected:
 
   void setRAMByMapping(std::vector<std::vector<int>> mapping, bool ignoreZero = false, int base = 2){
     checkBase(base);
+    checkMapping(mapping, entrySize);
     count=0;
 
     rams = std::vector<RAM>(mapping.size());
@@ -352,7 +353,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
@@ -364,6 +365,16 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<std::vector<int>>& mapping, const int entrySize) const{
+    for(unsigned int i=0; i<mapping.size(); i++){
+      for(unsigned int j=0; j<mapping[i].size(); j++){
+        if(mapping[i][j] < 0 || mapping[i][j] >= entrySize){
+          throw Exception("The mapping has a index out of range of entry!");
+        }
+      }
+    }
+  }
+
   int entrySize;
   int count;
   std::vector<RAM> rams;
-- 
2.43.0


From 12cf4fc298f13ed1b29131f452e1026baab7eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 09/46] fix: a rejected example was partly learned

The values were checked RAM by RAM while learning, so an invalid value left the
count and the RAMs before it changed. All values are now checked first.
---
 include/wisardpkg.hpp              | 16 ++++++++++++++++
 src/models/wisard/discriminator.cc |  9 +++++++++
 src/models/wisard/ram.cc           |  7 +++++++
 3 files changed, 32 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 18169e5..352e670 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18263,6 +18263,13 @@ public:
       }
   }
 
+  template<typename T>
+  void checkValues(const T& image) const {
+    for(unsigned int i=0; i<addresses.size(); i++){
+      checkPos(image[addresses[i]]);
+    }
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
@@ -18495,6 +18502,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkValues(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18724,6 +18732,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkValues(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -18738,6 +18747,13 @@ private:
     }
   }
 
+  template<typename T>
+  void checkValues(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkValues(image);
+    }
+  }
+
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index b0660cd..5bfc80c 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -85,6 +85,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkValues(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -314,6 +315,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkValues(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -328,6 +330,13 @@ private:
     }
   }
 
+  template<typename T>
+  void checkValues(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkValues(image);
+    }
+  }
+
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 74c8cc6..60e70d6 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -44,6 +44,13 @@ public:
       }
   }
 
+  template<typename T>
+  void checkValues(const T& image) const {
+    for(unsigned int i=0; i<addresses.size(); i++){
+      checkPos(image[addresses[i]]);
+    }
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
-- 
2.43.0


From dc5d563b14b59036365cbffa257cb3ba1f278c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 10/46] fix: a rejected first example left an empty class in
 Wisard

The class was inserted before its discriminator could be made and could learn
the example; the empty class then took part in every classification.
---
 include/wisardpkg.hpp       | 20 +++++++++++++-------
 src/models/wisard/wisard.cc | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 352e670..e896273 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18954,10 +18954,16 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d == discriminators.end()){
+      // the class only appears when its first example was accepted
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+    }
+    else{
+      d->second.train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -19028,19 +19034,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index bbb2dd5..fbf4962 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -147,10 +147,16 @@ public:
 protected:
   template<typename T>
   void train(const T& image, const std::string& label){
-    if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+    auto d = discriminators.find(label);
+    if(d == discriminators.end()){
+      // the class only appears when its first example was accepted
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+    }
+    else{
+      d->second.train(image);
     }
-    discriminators[label].train(image);
   }
 
   template<typename T>
@@ -221,19 +227,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From 55c9b4428cbb3dff74a7309d273024a9e2fde48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 11/46] fix: bleaching with confidence > 1 depended on the
 order of the labels

When a later label had the highest score, its distance to the ones before was
not compared with the confidence.
---
 include/wisardpkg.hpp   | 3 ++-
 src/common/bleaching.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e896273..00d3f21 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17540,8 +17540,9 @@ private:
     bool ambiguity = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        // the biggest until now is the closest of the candidates already seen
+        ambiguity = i != candidates.begin() && (i->second - biggest) < confidence;
         biggest = i->second;
-        ambiguity = false;
       }
       else if( (biggest - i->second) < confidence ){
         ambiguity = true;
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..63ebd0d 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -65,8 +65,9 @@ private:
     bool ambiguity = false;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
+        // the biggest until now is the closest of the candidates already seen
+        ambiguity = i != candidates.begin() && (i->second - biggest) < confidence;
         biggest = i->second;
-        ambiguity = false;
       }
       else if( (biggest - i->second) < confidence ){
         ambiguity = true;
-- 
2.43.0


From 9edb6623e3dfbb0bc3fefc1bb334d7a6edcda1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 12/46] fix: the confidence of a classification without any
 score was NaN

---
 include/wisardpkg.hpp   | 1 +
 src/common/bleaching.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 00d3f21..f36ef8d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17525,6 +17525,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 63ebd0d..293c81d 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -50,6 +50,7 @@ public:
   }
 
   static float getConfidence(std::map<std::string,int>& candidates, int biggest) {
+    if(biggest == 0) return 0;
     float secondBiggest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second >= secondBiggest && i->second < biggest){
-- 
2.43.0


From 6e7b02c5f4e3fdd17e8d97b183a7deac6b4401d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 13/46] fix: the activation degree ignored mapping and indexes

It was divided by the number of RAMs of the default addressing, giving values
above 1 or never reaching 1 when mapping or indexes define the RAMs. Taking the
number from the discriminator also lets an empty batch be classified.
---
 src/wrappers/wisardwrapper.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..2b6cc8c 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -43,13 +43,15 @@ public:
     }
   }
 
-  void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+  void setClassifyOutput(py::list& labels, int i, std::string aClass, std::map<std::string,int>& candidates){
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      // mapping and indexes define their own number of RAMs
+      auto d = discriminators.find(aClass);
+      float activationDegree = d == discriminators.end() ? 0 : candidates[aClass]/(float)d->second.getNumberOfRAMS();
       labels[i]["activationDegree"]=activationDegree;
     }
 
@@ -91,14 +93,12 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
-
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
       std::string aClass = Bleaching::getBiggestCandidate(candidates);
-      setClassifyOutput(labels, i, aClass, numberOfRAMS, candidates);
+      setClassifyOutput(labels, i, aClass, candidates);
     }
     if(verbose) std::cout << "\r" << std::endl;
     return labels;
-- 
2.43.0


From 754ceb357ec886fe8ca7a2bfe309d40cafe8dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 14/46] fix: asking for degrees of an untrained model invented
 an empty class

candidates[label] inserted the class "" into the list of classesDegrees.
---
 src/wrappers/cluswisardwrapper.cc | 4 ++--
 src/wrappers/wisardwrapper.cc     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..7fe95d7 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -53,12 +53,12 @@ public:
       }
 
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float activationDegree = candidates.empty() ? 0 : candidates[label]/numberOfRAMS;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = candidates.empty() ? 0 : Bleaching::getConfidence(candidates, candidates[label]);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2b6cc8c..8df36b1 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -56,7 +56,7 @@ public:
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = candidates.empty() ? 0 : Bleaching::getConfidence(candidates, candidates[aClass]);
       labels[i]["confidence"]=confidence;
     }
 
-- 
2.43.0


From 2a712df780b4e8b3063970b0a1b4b77174924bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 15/46] fix: training and classifying an empty batch crashed

The size of the first example was read although there was none.
---
 include/wisardpkg.hpp               | 11 ++++++++---
 src/models/cluswisard/cluswisard.cc |  7 +++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  2 +-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f36ef8d..52f23fa 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18883,6 +18883,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18892,9 +18893,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19345,9 +19347,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19357,9 +19360,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -19391,6 +19395,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..323a18d 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     unsigned int size = images.size()-labels.size();
     std::vector<int> labelless = std::vector<int>(size);
@@ -123,6 +125,7 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
+    if(images.empty()) return;
     if((int)clusters.size()==0){
       unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
     }
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index fbf4962..a0e2212 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.empty()) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 7fe95d7..c79c8f2 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,7 +39,7 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
-    float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
+    float numberOfRAMS = images.empty() ? 0 : calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
     for(unsigned int i=0; i<images.size(); i++){
-- 
2.43.0


From bc305ef7bef75939e5e51900790d7f08e6150426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 16/46] fix: semi-supervised training used the wrong examples

The first examples of the batch were learned again instead of the unlabelled
ones, and labels for indexes outside the batch made the list of unlabelled
examples be written out of its bounds.
---
 include/wisardpkg.hpp               | 13 +++----------
 src/models/cluswisard/cluswisard.cc | 13 +++----------
 2 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 52f23fa..1682c0e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19365,18 +19365,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -19388,7 +19381,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 323a18d..bfde1e9 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -95,18 +95,11 @@ public:
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
       else{
         train(images[i], labels[i]);
@@ -118,7 +111,7 @@ public:
 
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 8c198985ef80b06c6cb125944e94c03405f87b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 17/46] fix: training with address size 0 divided by zero
 instead of being rejected

---
 include/wisardpkg.hpp | 1 +
 src/common/utils.cc   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1682c0e..19fbb38 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17351,6 +17351,7 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1) return 0;
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/common/utils.cc b/src/common/utils.cc
index 193b426..b1fe91c 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -21,6 +21,7 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1) return 0;
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
-- 
2.43.0


From 4fe603504e14177922c7f677d1355c318ad60346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 18/46] fix: trainUnsupervised ignored the base and forgot or
 did not set up its cluster

The cluster was made again whenever there was no labelled cluster, dropping what
was learned or loaded before, and never when there was one, so that an
uninitialised cluster was trained. The base was not passed on.
---
 include/wisardpkg.hpp               | 4 ++--
 src/models/cluswisard/cluswisard.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 19fbb38..384ad53 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19390,8 +19390,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index bfde1e9..d577997 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -119,8 +119,8 @@ public:
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
     if(images.empty()) return;
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(unsupervisedCluster.getSize()==0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From 1249da58cd251ed6aa65a4ca8aafeec706cba9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 19/46] fix: ClusWisard cut labels that contain "::"

The label was taken up to the first "::" of "label::index", so such classes were
reported, and learned by semi-supervised training, under another name.
---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 384ad53..b0ec427 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19406,7 +19406,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19421,7 +19421,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19489,7 +19489,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index d577997..b53c85c 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -135,7 +135,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -150,7 +150,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -218,7 +218,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index c79c8f2..07d5596 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -46,7 +46,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -85,7 +85,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 675adb584eceda073c80d343b89a0cedec63647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 20/46] fix: getMentalImage of an unknown label created an
 uninitialised cluster

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index b0ec427..77b6dc9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19431,7 +19431,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b53c85c..00328dc 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -160,7 +160,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto c = clusters.find(label);
+    if(c == clusters.end()) return std::vector<std::vector<int>>();
+    return c->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From 5191f5fa1449b2c6877962c51f55ecbeaac02da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 21/46] fix: copies of a ClusWisard shared their discriminators

Clusters held pointers which copies shared and nobody deleted, so training one
copy trained the other, and every model leaked its discriminators.
---
 include/wisardpkg.hpp            | 33 ++++++++++++++++----------------
 src/models/cluswisard/cluster.cc | 33 ++++++++++++++++----------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 77b6dc9..615f6d7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19128,7 +19128,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -19167,16 +19168,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19192,8 +19193,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19203,7 +19204,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19214,14 +19215,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19230,20 +19231,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19251,7 +19252,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19264,7 +19265,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..963d2e9 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -44,7 +44,8 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      int index = discriminators.size();
+      discriminators[index] = Discriminator(d);
     }
   }
 
@@ -83,16 +84,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +109,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +120,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +131,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +147,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +168,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +181,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From ed060b60ae2c609d64797d0cc0565df9b45cee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 22/46] fix: a rejected example left empty or partly changed
 clusters in ClusWisard

A cluster or discriminator was inserted before its first example was accepted,
fixing a wrong entry size or leaving an untrained discriminator behind, and the
discriminators before a rejecting one had already learned the example.
---
 include/wisardpkg.hpp               | 34 ++++++++++++++++++-----------
 src/models/cluswisard/cluster.cc    | 18 ++++++++-------
 src/models/cluswisard/cluswisard.cc | 16 +++++++++-----
 3 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 615f6d7..1d0684f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19214,25 +19214,28 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  // the discriminator only appears when its first example was accepted
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
     float bestValue = 0.0;
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
+    std::vector<std::vector<int>> votes = classify(image);
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i].classify(image);
-      float score = getScore(votes);
+      float score = getScore(votes[i]);
       float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
@@ -19251,8 +19254,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
@@ -19483,10 +19485,16 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c == clusters.end()){
+      // the cluster only appears when its first example was accepted
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+    }
+    else{
+      c->second.train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -19554,8 +19562,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 963d2e9..e40cdbb 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -130,25 +130,28 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  // the discriminator only appears when its first example was accepted
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
     float bestValue = 0.0;
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
+    std::vector<std::vector<int>> votes = classify(image);
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i].classify(image);
-      float score = getScore(votes);
+      float score = getScore(votes[i]);
       float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
@@ -167,8 +170,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 00328dc..0d9a340 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -211,10 +211,16 @@ public:
 
 protected:
   void train(const std::vector<int>& image, const std::string& label){
-    if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+    auto c = clusters.find(label);
+    if(c == clusters.end()){
+      // the cluster only appears when its first example was accepted
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+    }
+    else{
+      c->second.train(image);
     }
-    clusters[label].train(image);
   }
 
   void train(const std::vector<int>& image){
@@ -282,8 +288,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
-- 
2.43.0


From 40b0a61af5d59df527489b4bde72c9f512c85429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 23/46] fix: snapshots saved under one prefix could be appended
 to the same file

The random file names repeat for objects made in the same second, and the file
was opened for appending, so both snapshots were corrupted.
---
 include/wisardpkg.hpp              | 5 ++++-
 src/models/wisard/discriminator.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1d0684f..e791d69 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18682,7 +18682,10 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 5bfc80c..9042721 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -262,7 +262,10 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename;
+      do{
+        filename = prefix + getRandomString(10) + ramdata_sufix;
+      }while(std::ifstream(filename).is_open());
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
 
-- 
2.43.0


From da499843b905dc355abfa95c616f1e645c9c5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 24/46] fix: failures to write or open data files were ignored

json(true, path) returned the name of a file that was not or only partly written,
and loading without the file gave a model without RAMs.
---
 include/wisardpkg.hpp              | 9 +++++++++
 src/models/wisard/discriminator.cc | 6 ++++++
 src/models/wisard/ramdatahandle.cc | 3 +++
 3 files changed, 18 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e791d69..310e1a8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18121,6 +18121,9 @@ private:
         }
         dataFile.close();
       }
+      else{
+        throw Exception("The data file could not be opened!");
+      }
     }
     else{
       int pos=0;
@@ -18663,6 +18666,9 @@ protected:
         }
         dataFile.close();
       }
+      else{
+        throw Exception("The data file could not be opened!");
+      }
     }
     else{
       int pos=0;
@@ -18694,6 +18700,9 @@ protected:
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The data file could not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 9042721..74c25dc 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -243,6 +243,9 @@ protected:
         }
         dataFile.close();
       }
+      else{
+        throw Exception("The data file could not be opened!");
+      }
     }
     else{
       int pos=0;
@@ -274,6 +277,9 @@ protected:
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The data file could not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 7114139..963d2cd 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -83,6 +83,9 @@ private:
         }
         dataFile.close();
       }
+      else{
+        throw Exception("The data file could not be opened!");
+      }
     }
     else{
       int pos=0;
-- 
2.43.0


From b9ad81abd8e2c8ae04e3f59656d45684eb7bbb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 25/46] fix: DataSet files were appended to, and empty or
 missing ones mishandled

---
 include/wisardpkg.hpp | 14 +++++++++++---
 src/data/dataset.cc   | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 310e1a8..acd657b 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17698,6 +17698,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.empty()) continue; // a data set without entries
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -17705,6 +17706,9 @@ public:
       }
       dataFile.close();
     }
+    else{
+      throw Exception("The data set file could not be opened!");
+    }
   }
 
   void add(const BinInput& input){
@@ -17729,7 +17733,7 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
@@ -17743,13 +17747,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The data set file could not be written!");
+    }
   }
 
 private:
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..79abf51 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -14,6 +14,7 @@ public:
 
         std::string input="";
         std::getline(dataFile,input,'.');
+        if(input.empty()) continue; // a data set without entries
         int sharp = input.find("#");
         std::string label = Base64::decode(input.substr(0,sharp));
 
@@ -21,6 +22,9 @@ public:
       }
       dataFile.close();
     }
+    else{
+      throw Exception("The data set file could not be opened!");
+    }
   }
 
   void add(const BinInput& input){
@@ -45,7 +49,7 @@ public:
   }
 
   const BinInput& get(int index) const {
-    return data[index];
+    return data.at(index);
   }
 
   std::string getLabel(index_size_t index) const {
@@ -59,13 +63,17 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      dataFile << (i != 0 ? "." : "") + Base64::encode(label == labels.end() ? "" : label->second) + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The data set file could not be written!");
+    }
   }
 
 private:
-- 
2.43.0


From 72f8a9c9afe872f927b2f222b0799d67b87a2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 26/46] fix: reading a RAMDataHandle created RAMs and cells

---
 include/wisardpkg.hpp              | 22 +++++++++++++++++-----
 src/models/wisard/ramdatahandle.cc | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index acd657b..ccf418e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18054,14 +18054,22 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto cell = ram->second.find(addr);
+    return cell == ram->second.end() ? 0 : cell->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    auto ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
   void set(int r, int addr, int value){
+    if(r < 0){
+      throw Exception("The index of a RAM can not be negative!");
+    }
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
@@ -18089,9 +18097,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -18102,13 +18111,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The data file could not be written!");
+    }
   }
 
 private:
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 963d2cd..337cfc6 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -8,14 +8,22 @@ public:
   }
 
   int get(int r, int addr){
-    return ramdata[r][addr];
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto cell = ram->second.find(addr);
+    return cell == ram->second.end() ? 0 : cell->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    auto ram = ramdata.find(r);
+    return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
   void set(int r, int addr, int value){
+    if(r < 0){
+      throw Exception("The index of a RAM can not be negative!");
+    }
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
@@ -43,9 +51,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
@@ -56,13 +65,16 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename);
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The data file could not be written!");
+    }
   }
 
 private:
-- 
2.43.0


From 76550e023a3636679b22d594bcaf9aca9e6b08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 27/46] fix: Synthesizer of an image without intensities
 divided by zero

---
 include/wisardpkg.hpp              | 3 ++-
 src/synthetic_data/synthesizers.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ccf418e..a439b49 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17774,9 +17774,10 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
 
+    int index = randint(0, maxData-1);
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
         out[i] = 0;
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..4f5827a 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,9 +8,10 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
 
+    int index = randint(0, maxData-1);
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
         out[i] = 0;
-- 
2.43.0


From 01251740c2f76cc85045630d3028e17ae2670736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 28/46] fix: Synthesizer repeated the same draw for a whole
 second

---
 include/wisardpkg.hpp              | 2 +-
 src/synthetic_data/synthesizers.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a439b49..c4437b7 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17777,7 +17777,7 @@ public:
     std::vector<int> out(cube.size());
     if(maxData == 0) return out;
 
-    int index = randint(0, maxData-1);
+    int index = randint(0, maxData-1, false);
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
         out[i] = 0;
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 4f5827a..55782d0 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -11,7 +11,7 @@ public:
     std::vector<int> out(cube.size());
     if(maxData == 0) return out;
 
-    int index = randint(0, maxData-1);
+    int index = randint(0, maxData-1, false);
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
         out[i] = 0;
-- 
2.43.0


From 0fb2e6d4423bc4199f3c53336dee83361d51a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 29/46] fix: KernelCanvas(dim, kernels) in C++ left its
 dimension uninitialised

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c4437b7..757fe99 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17828,7 +17828,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 9cd6fe8f31b3607da72f9abe25f2156a11566aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 30/46] fix: KernelCanvas read points of a wrong dimension
 before rejecting them

---
 include/wisardpkg.hpp            | 3 ++-
 src/binarization/kernelcanvas.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 757fe99..e15a124 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17844,6 +17844,8 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17858,7 +17860,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..a363f8d 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,8 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +33,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From 1bb9fce9a3a6912046302ae7cdc6de9d44b850cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 31/46] fix: KernelCanvas divided by zero for constant
 coordinates

---
 include/wisardpkg.hpp            | 7 ++++++-
 src/binarization/kernelcanvas.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e15a124..fe03308 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17916,14 +17916,19 @@ protected:
 
   std::vector<double> multDimStd(const std::vector<double>& means, const std::vector<std::vector<double>>& sequenceData){
     std::vector<double> output(dim);
+    std::vector<bool> constant(dim,true);
     for(unsigned int i=0; i<output.size(); i++) output[i]=0;
     for(unsigned int i=0; i<sequenceData.size(); i++){
       for(int j=0; j<dim; j++){
         double diff = (means[j] - sequenceData[i][j]);
         output[j] +=  diff*diff;
+        if(sequenceData[i][j] != sequenceData[0][j]) constant[j] = false;
       }
     }
-    for(unsigned int i=0; i<output.size(); i++) output[i] = std::sqrt(output[i]/sequenceData.size());
+    for(unsigned int i=0; i<output.size(); i++){
+      output[i] = std::sqrt(output[i]/sequenceData.size());
+      if(constant[i] || output[i] == 0) output[i] = 1; // nothing to scale
+    }
     return output;
   }
 
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index a363f8d..e4d30f7 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -89,14 +89,19 @@ protected:
 
   std::vector<double> multDimStd(const std::vector<double>& means, const std::vector<std::vector<double>>& sequenceData){
     std::vector<double> output(dim);
+    std::vector<bool> constant(dim,true);
     for(unsigned int i=0; i<output.size(); i++) output[i]=0;
     for(unsigned int i=0; i<sequenceData.size(); i++){
       for(int j=0; j<dim; j++){
         double diff = (means[j] - sequenceData[i][j]);
         output[j] +=  diff*diff;
+        if(sequenceData[i][j] != sequenceData[0][j]) constant[j] = false;
       }
     }
-    for(unsigned int i=0; i<output.size(); i++) output[i] = std::sqrt(output[i]/sequenceData.size());
+    for(unsigned int i=0; i<output.size(); i++){
+      output[i] = std::sqrt(output[i]/sequenceData.size());
+      if(constant[i] || output[i] == 0) output[i] = 1; // nothing to scale
+    }
     return output;
   }
 
-- 
2.43.0


From 2d7da9e2a3469e6bbaf78a17b5b5240462561386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 32/46] fix: KernelCanvas with useDirection wrote outside its
 buffers

---
 include/wisardpkg.hpp            | 20 +++++++++++---------
 src/binarization/kernelcanvas.cc | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index fe03308..23642a6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17861,6 +17861,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -17938,8 +17939,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -17957,7 +17958,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -17991,7 +17992,8 @@ protected:
     if(useDirection){
       int ix = switchIndexes(indexes);
 
-      int ipp = ix*amplifyDim;
+      int base = ix*amplifyDim;
+      int ipp = base;
       point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
       double aback = 0.0;
       double afront = 0.0;
@@ -18000,7 +18002,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = base + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18009,11 +18011,11 @@ protected:
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse == 0 ? 0 : dx/hypotenuse;
+          point[sinix+1] = hypotenuse == 0 ? 0 : dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18023,8 +18025,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[base +j];
+          point[indexes[2]*amplifyDim +j] = point[base +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index e4d30f7..d770b50 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -34,6 +34,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -111,8 +112,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -130,7 +131,7 @@ protected:
           int ix = indexes[pi]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
+          if(j%amplifyDim == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -164,7 +165,8 @@ protected:
     if(useDirection){
       int ix = switchIndexes(indexes);
 
-      int ipp = ix*amplifyDim;
+      int base = ix*amplifyDim;
+      int ipp = base;
       point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
       double aback = 0.0;
       double afront = 0.0;
@@ -173,7 +175,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = base + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -182,11 +184,11 @@ protected:
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse == 0 ? 0 : dx/hypotenuse;
+          point[sinix+1] = hypotenuse == 0 ? 0 : dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -196,8 +198,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[base +j];
+          point[indexes[2]*amplifyDim +j] = point[base +j];
         }
       }
     }
-- 
2.43.0


From 0275936b368c6b02f75ec522d7cd5ad96b807143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 33/46] fix: KernelCanvas accepted an activation degree that is
 not a number

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 23642a6..f15fd27 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18044,7 +18044,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index d770b50..1ec6339 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -217,7 +217,7 @@ protected:
       throw Exception("Error: the dimension can not be lesser than 1!");
     if(bitsByKernel<1)
       throw Exception("Error: the number of bits by kernel can not be lesser than 1!");
-    if(activationDegree > 1 || activationDegree < 0)
+    if(!(activationDegree >= 0 && activationDegree <= 1))
       throw Exception("Error: the activation degree must be between 0 and 1!");
   }
 
-- 
2.43.0


From 1994b56abc9c6184ade75314251473e45cfc046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 34/46] verification hook: read access to the kernels of a
 KernelCanvas (WISARDPKG_VERIF)

---
 include/wisardpkg.hpp            | 7 +++++++
 src/binarization/kernelcanvas.cc | 7 +++++++
 src/wisard_bind.cc               | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index f15fd27..4588f24 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17872,6 +17872,13 @@ public:
     kernels.clear();
   }
 
+#ifdef WISARDPKG_VERIF
+  // verification only: the random kernels, to compare the output with them
+  std::vector<std::vector<double>> verifKernels() const {
+    return kernels;
+  }
+#endif
+
 protected:
   int bitsByKernel;
   int dim;
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 1ec6339..48aa5e6 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -45,6 +45,13 @@ public:
     kernels.clear();
   }
 
+#ifdef WISARDPKG_VERIF
+  // verification only: the random kernels, to compare the output with them
+  std::vector<std::vector<double>> verifKernels() const {
+    return kernels;
+  }
+#endif
+
 protected:
   int bitsByKernel;
   int dim;
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..55b83b4 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -32,6 +32,9 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<KernelCanvasWrapper>(m, "KernelCanvas")
       .def(py::init<int, int, py::kwargs>())
       .def("transform", &KernelCanvasWrapper::transform)
+#ifdef WISARDPKG_VERIF
+      .def("verifKernels", &KernelCanvasWrapper::verifKernels)
+#endif
     ;
 
     //sythesizer
-- 
2.43.0


From 6510bac3ad41561ddf981371aa2e141837c9a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 35/46] fix: BinInput values other than 0 and 1 changed other
 bits

---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4588f24..51f862a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17659,6 +17659,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..123bc68 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -36,6 +36,9 @@ public:
     if(index >= size()) {
       throw Exception("Index out of range!");
     }
+    if(value != 0 && value != 1) {
+      throw Exception("The value of a bit must be 0 or 1!");
+    }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
     input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
-- 
2.43.0


From bfaf1c177e9dccacda8a2474b6cbe3b45361ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 36/46] fix: saving a class whose label contains a null
 character cut the file name

---
 include/wisardpkg.hpp              | 3 +++
 src/models/wisard/discriminator.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 51f862a..5cb886d 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18728,6 +18728,9 @@ protected:
     std::string data;
     if(huge){
       std::string filename;
+      if(prefix.find('\0') != std::string::npos){
+        throw Exception("The name of a data file can not contain a null character!");
+      }
       do{
         filename = prefix + getRandomString(10) + ramdata_sufix;
       }while(std::ifstream(filename).is_open());
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 74c25dc..64c2a15 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -266,6 +266,9 @@ protected:
     std::string data;
     if(huge){
       std::string filename;
+      if(prefix.find('\0') != std::string::npos){
+        throw Exception("The name of a data file can not contain a null character!");
+      }
       do{
         filename = prefix + getRandomString(10) + ramdata_sufix;
       }while(std::ifstream(filename).is_open());
-- 
2.43.0


From 047b785b2fe3e8739d0a18fa01e25523b503e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 37/46] fix: a Discriminator refused every BinInput in Python

---
 src/wisard_bind.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 55b83b4..83daf31 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -58,11 +58,11 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<DiscriminatorWrapper>(m, "Discriminator")
       .def(py::init<std::string>())
       .def(py::init<int,int,py::kwargs>())
-      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::train)
+      .def("train", (void (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::train)
       .def("train", (void (DiscriminatorWrapper::*)(const std::vector<std::vector<int>>&)) &DiscriminatorWrapper::train)
-      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const BinInput&)) &DiscriminatorWrapper::classify)
+      .def("classify", (std::vector<int> (DiscriminatorWrapper::*)(const std::vector<int>&)) &DiscriminatorWrapper::classify)
       .def("jsonConfig",(std::string (DiscriminatorWrapper::*)())  &DiscriminatorWrapper::jsonConfig)
       .def("json", (std::string (DiscriminatorWrapper::*)()) &DiscriminatorWrapper::json)
       .def("json", (std::string (DiscriminatorWrapper::*)(bool)) &DiscriminatorWrapper::json)
-- 
2.43.0


From 7947c11d099563897ac186763a33c84df6445ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 38/46] fix: a rejected example left its label in the DataSet

---
 include/wisardpkg.hpp | 3 +--
 src/data/dataset.cc   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5cb886d..a2fd781 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17727,8 +17727,7 @@ public:
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input),label);
   }
 
   const BinInput& operator[](int index) const {
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 79abf51..859a370 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -40,8 +40,7 @@ public:
     add(input,"");
   }
   void add(const std::vector<short>& input, const std::string& label){
-    if(label.size()>0) labels[data.size()]=label;
-    data.push_back(BinInput(input));
+    add(BinInput(input),label);
   }
 
   const BinInput& operator[](int index) const {
-- 
2.43.0


From a5d11d0f17c3cc95795805d753aa24daf90e50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:04 +0000
Subject: [PATCH 39/46] fix: RAMDataHandle get and set reach every address

Addresses are 64 bit numbers, but get and set took an int: the cells of a
RAM with more than 31 bits of addresses could be neither read nor written.
---
 include/wisardpkg.hpp              | 4 ++--
 src/models/wisard/ramdatahandle.cc | 4 ++--
 src/wisard_bind.cc                 | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a2fd781..6ebe7fc 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18071,7 +18071,7 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
+  int get(int r, addr_t addr){
     auto ram = ramdata.find(r);
     if(ram == ramdata.end()) return 0;
     auto cell = ram->second.find(addr);
@@ -18083,7 +18083,7 @@ public:
     return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     if(r < 0){
       throw Exception("The index of a RAM can not be negative!");
     }
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 337cfc6..ba60b1e 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,7 +7,7 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
+  int get(int r, addr_t addr){
     auto ram = ramdata.find(r);
     if(ram == ramdata.end()) return 0;
     auto cell = ram->second.find(addr);
@@ -19,7 +19,7 @@ public:
     return ram == ramdata.end() ? ram_t() : ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     if(r < 0){
       throw Exception("The index of a RAM can not be negative!");
     }
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 83daf31..63bafcb 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -47,7 +47,7 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t)) &RAMDataHandle::get)
       .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
-- 
2.43.0


From 89430738092aa19403ac8fbc1343c074f6aee3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:39 +0000
Subject: [PATCH 40/46] fix: Base64::decode rejects text that is not Base64

A text whose length is not a multiple of four was read and decoded beyond
the ends of both strings.
---
 include/wisardpkg.hpp | 9 +++++++++
 src/common/utils.cc   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 6ebe7fc..e31ff10 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17442,6 +17442,7 @@ public:
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
     if(sizeIn == 0) return "";
+    checkText(dataIn);
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
@@ -17456,6 +17457,14 @@ public:
   }
 
 private:
+  static void checkText(const std::string& dataIn){
+    size_t padding = dataIn.size();
+    while(padding > 0 && dataIn.size()-padding < 2 && dataIn[padding-1] == '=') padding--;
+    if(dataIn.size()%4 != 0 || dataIn.find_first_not_of(charsMap) < padding){
+      throw Exception("The text is not Base64!");
+    }
+  }
+
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
diff --git a/src/common/utils.cc b/src/common/utils.cc
index b1fe91c..662b993 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -112,6 +112,7 @@ public:
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
     if(sizeIn == 0) return "";
+    checkText(dataIn);
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
@@ -126,6 +127,14 @@ public:
   }
 
 private:
+  static void checkText(const std::string& dataIn){
+    size_t padding = dataIn.size();
+    while(padding > 0 && dataIn.size()-padding < 2 && dataIn[padding-1] == '=') padding--;
+    if(dataIn.size()%4 != 0 || dataIn.find_first_not_of(charsMap) < padding){
+      throw Exception("The text is not Base64!");
+    }
+  }
+
   static const std::string charsMap;
   static std::unordered_map<char,char> indexMap;
 
-- 
2.43.0


From e9c8c99edb29441d92714530ac9ccf151c137e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 41/46] fix: BinInput rejects data that is not of a BinInput

The number of unused bits was taken as it came, so the size could be larger
than the bits and get and set reached memory outside of them.
---
 include/wisardpkg.hpp | 3 +++
 src/data/bininput.cc  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index e31ff10..64f3056 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17649,6 +17649,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data is not of a BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 123bc68..fd50ae5 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -17,6 +17,9 @@ public:
     int s = sizeof(char);
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("The data is not of a BinInput!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From 783ecc5bf7f8667bfe402f6527bc4f786b9a4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:32 +0000
Subject: [PATCH 42/46] fix: a data set file with an entry that is cut short is
 rejected

---
 include/wisardpkg.hpp | 5 ++++-
 src/data/dataset.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 64f3056..07fe080 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17714,7 +17714,10 @@ public:
         std::string input="";
         std::getline(dataFile,input,'.');
         if(input.empty()) continue; // a data set without entries
-        int sharp = input.find("#");
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The data set file is not well formed!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 859a370..e3baec2 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -15,7 +15,10 @@ public:
         std::string input="";
         std::getline(dataFile,input,'.');
         if(input.empty()) continue; // a data set without entries
-        int sharp = input.find("#");
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The data set file is not well formed!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
-- 
2.43.0


From f1d41b6573dd9351b40ec4670859a79ec60a7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:26 +0000
Subject: [PATCH 43/46] fix: RAM data that is cut short is rejected

Models were built without the RAMs or cells that were missing, or with the
cells of other RAMs.
---
 include/wisardpkg.hpp              | 10 +++++++++-
 src/models/wisard/discriminator.cc |  6 ++++++
 src/models/wisard/ramdatahandle.cc |  4 +++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 07fe080..ab73b7c 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18193,7 +18193,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The data of a RAM is not complete!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
@@ -18717,6 +18719,9 @@ protected:
           base.merge_patch(rbase);
           rams.push_back(RAM(base));
         }
+        if(rams.size() != mapping.size() || (!mapping.empty() && !dataFile.eof())){
+          throw Exception("The data file is not of this discriminator!");
+        }
         dataFile.close();
       }
       else{
@@ -18724,6 +18729,9 @@ protected:
       }
     }
     else{
+      if(!data.empty() && std::count(data.begin(), data.end(), '.')+1 != (long)mapping.size()){
+        throw Exception("The data is not of this discriminator!");
+      }
       int pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
         int found = data.find('.',pos);
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 64c2a15..126e3a1 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -241,6 +241,9 @@ protected:
           base.merge_patch(rbase);
           rams.push_back(RAM(base));
         }
+        if(rams.size() != mapping.size() || (!mapping.empty() && !dataFile.eof())){
+          throw Exception("The data file is not of this discriminator!");
+        }
         dataFile.close();
       }
       else{
@@ -248,6 +251,9 @@ protected:
       }
     }
     else{
+      if(!data.empty() && std::count(data.begin(), data.end(), '.')+1 != (long)mapping.size()){
+        throw Exception("The data is not of this discriminator!");
+      }
       int pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
         int found = data.find('.',pos);
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index ba60b1e..4fe1919 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -114,7 +114,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The data of a RAM is not complete!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
-- 
2.43.0


From de7da82766def7b47b50edf888d016638e1eeb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 44/46] fix: ClusWisard checks the configuration it reads as
 the one it is given

---
 include/wisardpkg.hpp               | 1 +
 src/models/cluswisard/cluswisard.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ab73b7c..5c33e7f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19398,6 +19398,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 0d9a340..b0384d3 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -48,6 +48,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
-- 
2.43.0


From 8d635e5101edb109aee421314ba361df3d168ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 45/46] fix: a discriminator checks the base and mapping it
 reads

With a mapping out of range of the entry it read outside of its inputs.
---
 include/wisardpkg.hpp              | 4 ++++
 src/models/wisard/discriminator.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5c33e7f..95be478 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18491,6 +18491,10 @@ public:
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
     };
+    checkBase(config["base"]);
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
     setRAMsData(mapping, rbase, data);
   }
   Discriminator(int addressSize, int entrySize):Discriminator(addressSize, entrySize, {}){}
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 126e3a1..b7335f0 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -13,6 +13,10 @@ public:
       {"ignoreZero", config["ignoreZero"]},
       {"base", config["base"]}
     };
+    checkBase(config["base"]);
+    if(!mapping.is_null()){
+      checkMapping(mapping.get<std::vector<std::vector<int>>>(), entrySize);
+    }
     setRAMsData(mapping, rbase, data);
   }
   Discriminator(int addressSize, int entrySize):Discriminator(addressSize, entrySize, {}){}
-- 
2.43.0


From 8148407c1dbe6932e29bcf1cb3629c7e28637d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 46/46] fix: a discriminator without RAMs started with an
 undefined number of trainings

---
 include/wisardpkg.hpp              | 2 +-
 src/models/wisard/discriminator.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 95be478..7442d50 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18480,7 +18480,7 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index b7335f0..c110c15 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,7 +2,7 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-- 
2.43.0

