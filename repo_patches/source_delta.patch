From 41f6052675474c3aab4b1091c76890ebb2a794f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 01/47] fix: reading at a position must not fail because an
 earlier read hit the end of the file

---
 pwned-lib/hash.hpp                 | 1 +
 pwned-lib/passwordhashandcount.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..4823659 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -73,6 +73,7 @@ struct Hash
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear();
     f.seekg(pos);
     return read(f);
   }
diff --git a/pwned-lib/passwordhashandcount.hpp b/pwned-lib/passwordhashandcount.hpp
index c385a70..15c7507 100755
--- a/pwned-lib/passwordhashandcount.hpp
+++ b/pwned-lib/passwordhashandcount.hpp
@@ -51,6 +51,7 @@ public:
 
   inline bool read(std::istream &f, std::streamoff pos)
   {
+    f.clear();
     f.seekg(pos);
     return read(f);
   }
-- 
2.43.0


From d13ffe751ae9d1acf4e939c88d06259754cd25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 02/47] fix: indexed lookup must not loop forever when no
 neighbouring index entry is populated

---
 pwned-lib/passwordinspector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..5e7814b 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -88,6 +88,12 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     const std::streamoff idx = (std::streamoff)(hashMSB * sizeof(index_key_t));
     std::streamoff loIdx = idx;
     do {
+      if (loIdx < 0)
+      {
+        lo = 0;
+        break;
+      }
+      mIndexFile.clear();
       mIndexFile.seekg(loIdx);
       mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
       ++nReads;
@@ -96,6 +102,8 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
     std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
     do {
+      hi = mFileSize;
+      mIndexFile.clear();
       mIndexFile.seekg(hiIdx);
       mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
       ++nReads;
-- 
2.43.0


From 378ce228670e154c84ab1183d8456ce7498117e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 03/47] fix: operator!= of hashes must be the negation of
 operator==

---
 pwned-lib/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index 4823659..12e583c 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -97,7 +97,7 @@ inline bool operator==(const Hash &lhs, const Hash &rhs)
 
 inline bool operator!=(const Hash &lhs, const Hash &rhs)
 {
-  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower ||  lhs.isValid == rhs.isValid;
+  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower || lhs.isValid != rhs.isValid;
 }
 
 inline bool operator<(const Hash &lhs, const Hash &rhs)
-- 
2.43.0


From 2d107c48e8beba4f44db359cb358f05806b8f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 04/47] fix: hash the password itself if its $HEX[] payload is
 not valid hex

---
 pwned-lib/userpasswordreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..c42ea87 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -186,8 +186,10 @@ Hash UserPasswordReader::nextPasswordHash()
       if (std::regex_match(pwd, match, HexRegex))
       {
         std::string dehexed;
-        hexToCharSeq(match[1], dehexed);
-        hash = Hash(dehexed);
+        if (hexToCharSeq(match[1], dehexed))
+        {
+          hash = Hash(dehexed);
+        }
       }
     }
     if (!hash.isValid)
-- 
2.43.0


From d01bea34498c07f8ef58ed03a6bb76a16e35ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 05/47] fix: do not truncate the sum of symbol counts to 32
 bits

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..f7cb30d 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -70,7 +70,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mFirstSymbolCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..40c5929 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -56,7 +56,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
-- 
2.43.0


From c99558d3024c43e534955e26f0e089110cc7131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 06/47] fix: a transition never seen in training has
 probability 0

---
 pwned-lib/markovnode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 40c5929..aa52872 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto it = mProbs.find(c);
+    return it != mProbs.end() ? it->second : 0;
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From 40471f33235fb75f2fa77fa8949cf17745efe2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 07/47] fix: error string of BAD_NODE_COUNT_PREMATURE_EOF was
 missing

---
 pwned-lib/markovchain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index f7cb30d..3fdb2f2 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -343,7 +343,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
-- 
2.43.0


From 8167ad9dc88086a82c522bf1e53cf0ec05528829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 08/47] fix: be2le must not write the last record twice

---
 deprecated/be2le/be2le.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..95634c6 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -38,9 +38,8 @@ int main(int argc, const char *argv[])
   if (in.is_open() && out.is_open())
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
-- 
2.43.0


From 32cd3d44b92adb1066f9c330436a51278cdc4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 09/47] fix: print all 128 bits of a UUID

---
 pwned-lib/uuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/uuid.cpp b/pwned-lib/uuid.cpp
index 3ab142c..79acf40 100755
--- a/pwned-lib/uuid.cpp
+++ b/pwned-lib/uuid.cpp
@@ -28,9 +28,9 @@ std::ostream &operator<<(std::ostream &os, UUID const &uuid)
   const uint32_t a = uint32_t(uuid.uuid[0] >> 32);
   const uint16_t b = uint32_t(uuid.uuid[0] >> 16) & 0xffff;
   const uint16_t c = uint32_t(uuid.uuid[0]) & 0xffffU;
-  const uint16_t d = uint32_t(uuid.uuid[0] >> 48) & 0xffff;
-  const uint16_t e = uint32_t(uuid.uuid[0] >> 32) & 0xffff;
-  const uint32_t f = uint32_t(uuid.uuid[0]) & 0xffffffff;
+  const uint16_t d = uint32_t(uuid.uuid[1] >> 48) & 0xffff;
+  const uint16_t e = uint32_t(uuid.uuid[1] >> 32) & 0xffff;
+  const uint32_t f = uint32_t(uuid.uuid[1]) & 0xffffffff;
   std::ostringstream ss;
   ss << std::hex << std::uppercase << std::setfill('0')
      << std::setw(8) << a << '-'
-- 
2.43.0


From 38d61eda39c53ec48bb456fd4a8c1c86b4494a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 10/47] fix: TermIO::enableEcho must switch on ECHO and leave
 the other flags alone

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 1b3f0b5..74cba03 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -305,7 +305,7 @@ void TermIO::enableEcho()
   struct termios t;
   tcgetattr(STDIN_FILENO, &t);
   t.c_lflag |= tcflag_t(ICANON);
-  t.c_lflag |= tcflag_t(~ECHO);
+  t.c_lflag |= tcflag_t(ECHO);
   tcsetattr(STDIN_FILENO, TCSANOW, &t);
 }
 
-- 
2.43.0


From c9ba25aef2479fc04bf03a06d6b1b4e5efb350e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/47] fix: draw random symbols according to their
 probabilities

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 3fdb2f2..d64c501 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -317,7 +317,7 @@ public:
     for (const auto &symbol : mFirstSymbolSortedProbs)
     {
       pAccumulated += symbol.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return symbol.first;
     }
     return 0;
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index aa52872..4e81abe 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -107,7 +107,7 @@ public:
     for (const auto &successor : mSortedProbs)
     {
       pAccumulated += successor.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return successor.first;
     }
     return 0;
-- 
2.43.0


From ac6900a1f5307e563946dc1eb6d5df7bf051defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 12/47] fix: save a Markov chain that knows first symbols but
 no transitions

---
 pwned-lib/markovchain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index d64c501..97194fc 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,7 +166,7 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
+    if (mFirstSymbolSortedProbs.empty() && mNodes.empty())
       return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
-- 
2.43.0


From ab992df915a0dac49627d11e418c116d4f83a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 13/47] fix: loading a Markov chain from an unreadable stream
 must not report success

---
 pwned-lib/markovchain.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 97194fc..294e7f0 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -275,6 +275,10 @@ public:
         }
       }
     }
+    else
+    {
+      return BAD_HEADER_PREMATURE_EOF;
+    }
     for (auto &node : mNodes)
     {
       node.second.postprocess();
-- 
2.43.0


From 824a1a620e797dd0dd06a31f4a536e0a9155a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 14/47] fix: readableTime must not print 60 seconds nor drop
 the leading unit

---
 pwned-lib/util.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 74cba03..77deb7d 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -200,7 +200,8 @@ std::string readableSize(uint64_t size)
 
 std::string readableTime(double t)
 {
-  double x = t;
+  const double rounded = t < 60 ? t : round(t);
+  double x = rounded;
   const int days = int(x / 60 / 60 / 24);
   x -= double(days * 60 * 60 * 24);
   const int hours = int(x / 60 / 60);
@@ -209,15 +210,15 @@ std::string readableTime(double t)
   x -= double(mins * 60);
   const double secs = x;
   const int isecs = int(round(secs));
-  if (t > 60 * 60 * 24)
+  if (rounded >= 60 * 60 * 24)
   {
     return string_format("%dd %dh %dm %ds", days, hours, mins, isecs);
   }
-  if (t > 60 * 60)
+  if (rounded >= 60 * 60)
   {
     return string_format("%dh %dm %ds", hours, mins, isecs);
   }
-  if (t > 60)
+  if (rounded >= 60)
   {
     return string_format("%dm %ds", mins, isecs);
   }
-- 
2.43.0


From 68b5ed9fd1bb4ec2e506e0baef448b2b1279f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 15/47] fix: string_format wrote past its buffer for an empty
 format

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 77deb7d..6be43dd 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -154,7 +154,7 @@ int getMemoryStat(MemoryStat &memoryStat)
 // see https://stackoverflow.com/a/8098080
 std::string string_format(const std::string fmt_str, ...)
 {
-  int n = (int)(2 * fmt_str.size());
+  int n = (int)(2 * fmt_str.size()) + 1;
   std::unique_ptr<char[]> formatted;
   va_list ap;
   while (true)
-- 
2.43.0


From ec2169257d54c73f5eaad0ffb8a29be9875e13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 16/47] fix: converter must not ignore files given with --input

---
 pwned-converter-cli/pwned-converter-cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..fcd84c1 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -88,7 +88,7 @@ int main(int argc, const char *argv[])
   bool autoHex;
   unsigned int numThreads;
   desc.add_options()("help", "produce help message")
-  ("input,I", po::value<std::vector<std::string>>(), "set user:pass input file(s)")
+  ("input,I", po::value<std::vector<std::string>>(&filenames), "set user:pass input file(s)")
   ("src,S", po::value<std::string>(&srcDirectory), "set user:pass input directory")
   ("dst,D", po::value<std::string>(&dstDirectory), "set user:pass output directory")
   ("ext", po::value<std::string>(&outputExt)->default_value(DefaultOutputExt), "set extension for output files")
-- 
2.43.0


From 790d536e683b930d14e73c9716d6f1a1a66c3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 17/47] fix: look up the whole line typed and stop at the end
 of the input

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..726ecb1 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -94,8 +94,10 @@ int main(int argc, const char *argv[])
     std::cout << "Password? ";
     std::string pwd;
     pwned::setStdinEcho(false);
-    std::cin >> pwd;
+    const bool gotLine = bool(std::getline(std::cin, pwd));
     pwned::setStdinEcho(true);
+    if (!gotLine)
+      break;
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 3c7acdc945db7fdcb94d54f10fa8eea7bd37358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 18/47] fix: a URI is valid if it matches, whether or not it
 has credentials or a query

---
 pwned-server/uri.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6157b35..7f42c9b 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -36,14 +36,15 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = true;
+  mIsValid = false;
   if (std::regex_search(uri, m, RE))
   {
+    mIsValid = true;
     if (m.size() > 1)
     {
       mScheme = m[1].str();
     }
-    if (m.size() > 2)
+    if (m.size() > 2 && m[2].str().size() > 0)
     {
       std::vector<std::string> kv;
       const std::string &credentials = m[2].str();
@@ -74,7 +75,7 @@ void URI::parse(const std::string &uri)
     {
       mPath = m[5].str();
     }
-    if (m.size() > 7)
+    if (m.size() > 7 && m[7].str().size() > 0)
     {
       std::vector<std::string> kv;
       const std::string &p = m[7].str();
-- 
2.43.0


From 8372dcce903a36b340ef877418bd18743390e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 19/47] fix: a port number out of range makes a URI invalid
 instead of throwing or wrapping around

---
 pwned-server/uri.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 7f42c9b..f4246c3 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <iostream>
+#include <cstdlib>
 #include <vector>
 #include <regex>
 #include <boost/algorithm/string.hpp>
@@ -65,7 +66,15 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 4 && m[4].str().size() > 0)
     {
-      mPort = uint16_t(std::stoi(m[4].str()));
+      const unsigned long port = std::strtoul(m[4].str().c_str(), nullptr, 10);
+      if (port <= 65535)
+      {
+        mPort = uint16_t(port);
+      }
+      else
+      {
+        mIsValid = false;
+      }
     }
     else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
     {
-- 
2.43.0


From f8277d24d63ee8d2ed7bc8880b36eb424fc2ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 20/47] fix: the merger must count every record of every input
 exactly once

---
 pwned-merger-cli/mergeoperation.cpp | 36 ++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..849470a 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -77,8 +77,15 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
-      pq.push(mi);
       sum += mi->inputSize.value();
+      if (mi->isValid)
+      {
+        pq.push(mi);
+      }
+      else
+      {
+        delete mi;
+      }
     }
     totalEntries = sum / pwned::PasswordHashAndCount::size;
   }
@@ -110,10 +117,6 @@ void MergeOperation::execute() noexcept(false)
   if (isCancelled)
     return;
   auto t0 = std::chrono::high_resolution_clock::now();
-  if (d->pq.empty())
-  {
-    return;
-  }
   {
     std::ostringstream output;
     output << "Merging into " << d->dstFilePath.string()
@@ -128,13 +131,18 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
+  if (d->pq.empty())
+  {
+    return;
+  }
+  pwned::PasswordHashAndCount current = next();
+  ++d->entriesProcessed;
   uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
   while (!isCancelled)
   {
-    const pwned::PasswordHashAndCount &p = next();
     if (!d->pq.empty())
     {
+      const pwned::PasswordHashAndCount &p = next();
       if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
       {
         (*d->progressed)(d->entriesProcessed);
@@ -178,27 +186,19 @@ pwned::PasswordHashAndCount MergeOperation::next()
   {
     MergerInput *mergerInput = d->pq.top();
     result = mergerInput->phc;
+    d->pq.pop();
+    mergerInput->read();
     if (mergerInput->isValid)
     {
-      mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
     }
     else
     {
-      d->pq.pop();
       if (d->removeInputFilesAfterMerge)
       {
         mergerInput->deleteFile();
       }
       delete mergerInput;
-      if (d->pq.empty())
-      {
-        return pwned::PasswordHashAndCount();
-      }
     }
   }
   return result;
-- 
2.43.0


From e2db65cb8c0d8153789548ef472ae17dd9684332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 21/47] fix: indexer must reject key widths it cannot shift by

---
 pwned-index/index.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..c3ffc69 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -120,6 +120,13 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
+  {
+    std::cerr << "ERROR: bit count of index key must be between 1 and 63." << std::endl;
+    usage();
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
-- 
2.43.0


From 1acd6479c2ddeb036702b050af18b427b02aa117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 22/47] fix: a very long line made the check for hex-encoded
 passwords overflow the stack

---
 pwned-lib/userpasswordreader.cpp | 5 +++--
 pwned-lib/userpasswordreader.hpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index c42ea87..93a175e 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -117,7 +117,8 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
     for (int i = 0; i < nTries && !eof(); ++i)
     {
       std::getline(input, line);
-      if (line.find(guessedSeparator) != std::string::npos)
+      // matching needs stack space in proportion to the length of the line
+      if (line.size() <= maxLineLength && line.find(guessedSeparator) != std::string::npos)
       {
         if (std::regex_search(line, HexRegex))
         {
@@ -159,7 +160,7 @@ std::string UserPasswordReader::nextPassword()
     return std::string();
   std::getline(input, currentLine);
   ++lineNo;
-  if (currentLine.size() > 200 || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
+  if (currentLine.size() > maxLineLength || currentLine.size() < 1)
     return std::string();
   return extractPassword(currentLine);
 }
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index aed54a2..f0de200 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -54,6 +54,7 @@ protected:
 
 private:
   static const int nTries{500};
+  static const size_t maxLineLength{200}; // assume no user:pass line is longer than 200 characters
   uint64_t validEntries{0};
   uint64_t lineNo{0};
   char guessedSeparator{'\0'};
-- 
2.43.0


From 7bcc58ac7a457c24765a3406a7aa83cd3eb9789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 23/47] fix: the fragment of a request target was cut off at a
 question or number sign

---
 pwned-server/uri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index f4246c3..e1b8200 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -136,9 +136,10 @@ void URI::parseTarget(const std::string &target)
         }
       }
     }
-    if (queryAndFragment.size() > 1)
+    const size_t hashPos = target.find('#', pathAndQuery.at(0).size());
+    if (hashPos != std::string::npos)
     {
-      mFragment = queryAndFragment.at(1);
+      mFragment = target.substr(hashPos + 1);
     }
   }
 }
-- 
2.43.0


From 2fea25e227a04f41cfbccbdace357f6309db80ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 24/47] fix: report the path of URIs without authority

---
 pwned-server/uri.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index e1b8200..79233d2 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -82,7 +82,8 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 5)
     {
-      mPath = m[5].str();
+      // group 6 is the path of a URI without authority, e.g. "mailto:someone@example.com"
+      mPath = (m.size() > 6 && m[6].matched) ? m[6].str() : m[5].str();
     }
     if (m.size() > 7 && m[7].str().size() > 0)
     {
-- 
2.43.0


From c750d6ce97e02032efe91e84c2d0ffd65ff76876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 25/47] fix: forget the parts of the previous URI when parsing
 another one

---
 pwned-server/uri.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 79233d2..a9b889e 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -38,6 +38,14 @@ void URI::parse(const std::string &uri)
 {
   std::smatch m;
   mIsValid = false;
+  mScheme.clear();
+  mUsername.clear();
+  mPassword.clear();
+  mHost.clear();
+  mPort = 0;
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
   if (std::regex_search(uri, m, RE))
   {
     mIsValid = true;
@@ -114,6 +122,8 @@ void URI::parse(const std::string &uri)
 void URI::parseTarget(const std::string &target)
 {
   std::vector<std::string> pathAndQuery;
+  mQuery.clear();
+  mFragment.clear();
   boost::split(pathAndQuery, target, boost::is_any_of("?"));
   if (pathAndQuery.size() > 0)
   {
-- 
2.43.0


From 658779bd404a55641af245b8021750859357c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 26/47] fix: accept upper-case letters and hex digits in all
 parts of a URI but the scheme

---
 pwned-server/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index a9b889e..3a1ee0b 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -23,7 +23,7 @@
 
 #include "uri.hpp"
 
-static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$");
+static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[A-Za-z0-9-._~!$&'()*+,;=:]|%[0-9A-Fa-f]{2})*)@)?((?:[A-Za-z0-9-._~!$&'()*+,;=]|%[0-9A-Fa-f]{2})*)(?::(\\d*))?(\\/(?:[A-Za-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-Fa-f]{2})*)?|(\\/?(?:[A-Za-z0-9-._~!$&'()*+,;=:@]|%[0-9A-Fa-f]{2})+(?:[A-Za-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-Fa-f]{2})*)?)(?:\\?((?:[A-Za-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-Fa-f]{2})*))?(?:#((?:[A-Za-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-Fa-f]{2})*))?$");
 static const std::map<std::string, URI::port_type> SchemeToPort = {
   { "http", 80 },
   { "https", 443 }
-- 
2.43.0


From b58638007d1456589ffe4c0accf9b8e1ff95288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:54 +0000
Subject: [PATCH 27/47] fix: never overwrite an existing output file, even if
 10,000 of them exist

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..b5ac561 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -149,7 +149,7 @@ void ConvertOperation::execute() noexcept(false)
 
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    while (fs::exists(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
-- 
2.43.0


From c0423072caf4e944868280ed70f917eb70667b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 28/47] fix: cancelling an operation that is not running, or
 that ends meanwhile, does not wait forever

---
 pwned-lib/operation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..1ac5990 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -72,15 +72,16 @@ void Operation::start() noexcept
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
+  std::lock_guard<std::mutex> lock(mtx);
   isRunning = false;
   isFinished = true;
-  finishedCondition.notify_one();
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return !isRunning; });
 }
 
 void Operation::cancel()
-- 
2.43.0


From 5c06a98c954f8df65ac652e91435719da8398ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 29/47] fix: the operation queue does not take operations from
 an empty queue when it is cancelled while scheduling

---
 pwned-lib/operationqueue.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..b14fd09 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -18,6 +18,7 @@
 #ifndef __operationqueue_hpp__
 #define __operationqueue_hpp__
 
+#include <atomic>
 #include <thread>
 #include <pthread.h>
 #include <mutex>
@@ -58,7 +59,7 @@ class OperationQueue
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
   bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isCancelled{false};
   std::condition_variable pauseCondition;
 
 public:
@@ -164,12 +165,22 @@ public:
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (!_isCancelled)
       {
-        if (_isCancelled)
+        mtx.lock();
+        const bool nothingToSchedule = unscheduledOps.empty();
+        mtx.unlock();
+        if (nothingToSchedule)
           break;
         guard.wait();
         mtx.lock();
+        if (unscheduledOps.empty())
+        {
+          // cancelled while waiting
+          mtx.unlock();
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
-- 
2.43.0


From c937840ae2f4cc73307fd29b12df7dc49d6ac8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:00 +0000
Subject: [PATCH 30/47] fix: an operation that pauses does not miss being
 resumed or cancelled

---
 pwned-lib/operationqueue.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index b14fd09..909b320 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -58,7 +58,7 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
-  bool _isRunning{false};
+  std::atomic<bool> _isRunning{false};
   std::atomic<bool> _isCancelled{false};
   std::condition_variable pauseCondition;
 
@@ -96,7 +96,7 @@ public:
   {
     //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
+    pauseCondition.wait(lock, [this] { return _isRunning || _isCancelled; });
     //std::cout << "operationWait() resuming ... " << std::endl;
   }
 
@@ -106,12 +106,12 @@ public:
       return;
     if (_isRunning)
     {
+      std::lock_guard<std::mutex> lock(mtx);
+      _isRunning = false;
       for (Operation *op : runningOps)
       {
         op->pause();
       }
-      std::lock_guard<std::mutex> lock(mtx);
-      _isRunning = false;
     }
   }
 
@@ -122,15 +122,20 @@ public:
     if (!_isRunning)
     {
       // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
-      pauseCondition.notify_all();
+      std::lock_guard<std::mutex> lock(pauseMtx);
       _isRunning = true;
+      pauseCondition.notify_all();
     }
   }
 
   void cancel()
   {
     std::lock_guard<std::mutex> lock(mtx);
-    _isCancelled = true;
+    {
+      std::lock_guard<std::mutex> pauseLock(pauseMtx);
+      _isCancelled = true;
+      pauseCondition.notify_all();
+    }
     for (Operation *op : runningOps)
     {
       op->cancel();
-- 
2.43.0


From a8bae353b256c21933ae4db55e278fa3142f20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 31/47] fix: an operation cancelled while it is being started
 does not run after cancelling returned

---
 pwned-lib/operation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 1ac5990..bc0302d 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -60,9 +60,12 @@ void Operation::wait() noexcept(false)
 
 void Operation::start() noexcept
 {
-  if (isCancelled)
-    return;
-  isRunning = true;
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    if (isCancelled)
+      return;
+    isRunning = true;
+  }
   isPaused = false;
   try
   {
-- 
2.43.0


From 05c0e6202acb82e119c7792518195e29a973adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 32/47] fix: the web server builds with string views that have
 no to_string()

---
 pwned-server/httpworker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..86b4ed6 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << req.target();
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
-- 
2.43.0


From 3ce65474e3ae95b2da0885f1eb16cfa5450063f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 33/47] fix: a client that has gone before its request is
 logged does not end the service

---
 pwned-server/httpworker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 86b4ed6..f12d16a 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -146,8 +146,10 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
+    beast::error_code ec;
+    const tcp::endpoint &client = mSocket.remote_endpoint(ec);
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << (ec ? std::string("-") : client.address().to_string()) << ' '
        << req.target();
     (*mLogCallback)(ss.str());
   }
-- 
2.43.0


From f9aded1a30fc9ea34a806e0e4cb341579f77623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 34/47] fix: a connection that cannot be closed properly after
 its time is up does not end the service

---
 pwned-server/httpworker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index f12d16a..42688c8 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -233,7 +233,8 @@ void HttpWorker::checkTimeout()
 {
   if (mReqTimeout.expiry() <= std::chrono::steady_clock::now())
   {
-    mSocket.close();
+    beast::error_code ec;
+    mSocket.close(ec);
     mReqTimeout.expires_at(std::chrono::steady_clock::time_point::max());
   }
   mReqTimeout.async_wait(
-- 
2.43.0


From 1c29a902ae63b3387af1ccfcc1e3c70424b1d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 35/47] fix: the timer of a worker neither runs beside its
 other handlers nor closes the next connection

---
 pwned-server/httpworker.cpp | 5 +++--
 pwned-server/httpworker.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 42688c8..41cb0b7 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -62,9 +62,10 @@ void HttpWorker::accept()
   beast::error_code ec;
   mSocket.close(ec);
   mBuffer.consume(mBuffer.size());
+  mReqTimeout.expires_at((std::chrono::steady_clock::time_point::max)());
   mAcceptor.async_accept(
       mSocket,
-      [this](beast::error_code ec) {
+      net::bind_executor(mSocket.get_executor(), [this](beast::error_code ec) {
         if (ec)
         {
           accept();
@@ -74,7 +75,7 @@ void HttpWorker::accept()
           mReqTimeout.expires_after(Timeout);
           readRequest();
         }
-      });
+      }));
 }
 
 void HttpWorker::readRequest()
diff --git a/pwned-server/httpworker.hpp b/pwned-server/httpworker.hpp
index 49d78c0..5813302 100644
--- a/pwned-server/httpworker.hpp
+++ b/pwned-server/httpworker.hpp
@@ -25,6 +25,7 @@
 #include <boost/beast/core.hpp>
 #include <boost/beast/http.hpp>
 #include <boost/asio/ip/tcp.hpp>
+#include <boost/asio/strand.hpp>
 #include <boost/optional/optional.hpp>
 #include <boost/function.hpp>
 
@@ -55,11 +56,11 @@ public:
 
 private:
   tcp::acceptor &mAcceptor;
-  tcp::socket mSocket{mAcceptor.get_executor()};
+  tcp::socket mSocket{boost::asio::make_strand(mAcceptor.get_executor())};
   beast::flat_buffer mBuffer;
   boost::optional<http::request_parser<http::string_body>> mParser;
   boost::asio::basic_waitable_timer<std::chrono::steady_clock> mReqTimeout{
-    mAcceptor.get_executor(),
+    mSocket.get_executor(),
     (std::chrono::steady_clock::time_point::max)()};
   boost::optional<http::response<http::string_body>> mResponse;
   boost::optional<http::response_serializer<http::string_body>> mSerializer;
-- 
2.43.0


From de06525c0b232fdc100025c73bc6f9d5c6e7c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:00 +0000
Subject: [PATCH 36/47] fix: the converter makes progress with a memory limit
 of 0

---
 pwned-converter-cli/convertoperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index b5ac561..6d18ef6 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -88,7 +88,7 @@ void ConvertOperation::execute() noexcept(false)
     uint64_t memUsage = 0;
     ++splitFileNum;
     std::map<pwned::Hash, uint32_t, pwned::HashLess> passwordCountSet;
-    while (!reader.eof() && !reader.bad() && memUsage < d->maxMem)
+    while (!reader.eof() && !reader.bad() && (memUsage == 0 || memUsage < d->maxMem))
     {
       const pwned::Hash &hash = reader.nextPasswordHash();
       if (hash.isValid)
-- 
2.43.0


From 4f90e3ecc3e6524a350e78ccbecb072d914d1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 37/47] fix: the converter opens a list when it is its turn,
 and a list that cannot be read does not keep it busy forever

---
 pwned-converter-cli/convertoperation.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 6d18ef6..a2e8e40 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -42,7 +42,6 @@ public:
       , maxMem(maxMem)
       , options(options)
   {
-    inputFile.open(srcFilename, std::ios::binary);
   }
   const fs::path srcFilePath;
   const fs::path dstPath;
@@ -79,11 +78,20 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
+  // opened only now, because there can be more lists than files a process may have open
+  d->inputFile.open(d->srcFilePath.string(), std::ios::binary);
+  if (!d->inputFile.is_open())
+  {
+    std::ostringstream output;
+    output << "ERROR: cannot read " << d->srcFilePath.string() << std::endl;
+    std::cerr << output.str();
+    return;
+  }
   pwned::UserPasswordReader reader(d->inputFile, d->options);
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
   int splitFileNum = 0;
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     uint64_t memUsage = 0;
     ++splitFileNum;
-- 
2.43.0


From 79f4c4d94e9b6892b7a96ac0d7e323771aed6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 38/47] fix: lists of the same name that are converted at the
 same time do not get the same output file

---
 pwned-converter-cli/convertoperation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index a2e8e40..447eeb8 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,6 +17,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
@@ -28,6 +29,9 @@
 
 namespace fs = boost::filesystem;
 
+// keeps operations that run at the same time from choosing the same output file
+static std::mutex outputFileMutex;
+
 class ConvertOperationPrivate
 {
 public:
@@ -155,6 +159,7 @@ void ConvertOperation::execute() noexcept(false)
       return (d->dstPath / (srcFilename.string() + pwned::string_format("-%04x", splitFileNum))).string();
     };
 
+    std::unique_lock<std::mutex> outputFileLock(outputFileMutex);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
     while (fs::exists(dstFilePath))
@@ -168,6 +173,7 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
+    outputFileLock.unlock();
     if (f.is_open())
     {
       for (const auto &phc : passwordList)
-- 
2.43.0


From 2acf4388c8259be6368e30633907780fc4f99806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 39/47] fix: the merger ends if it is told to merge fewer than
 two files at once

---
 pwned-merger-cli/pwned-merger-cli.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..f156e55 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -166,6 +166,12 @@ int main(int argc, const char *argv[])
       return EXIT_FAILURE;
     }
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "WARNING: cannot merge " << maxFilesAtOnce << " file(s) at once. Defaulting to " << DefaultMaxFilesAtOnce << "." << std::endl
+              << std::endl;
+    maxFilesAtOnce = DefaultMaxFilesAtOnce;
+  }
   std::cout << "Destination file: " << dstFile << std::endl
             << std::endl;
   auto t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 68acaec0e3ee2c19e80c0f95ab77a70202640cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 40/47] fix: the password extractor ends if a list cannot be
 read to its end

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..c6576f7 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -210,7 +210,7 @@ int main(int argc, const char *argv[])
     }
     std::cout << inputFilename << std::flush;
     pwned::UserPasswordReader reader(inFile, readerOptions);
-    while (!reader.eof())
+    while (!reader.eof() && !reader.bad())
     {
       const std::string &pwd = reader.nextPassword().append("\n");
       if (!pwd.empty())
-- 
2.43.0


From 113f818ff463b63d2d55d4e07fc51511acc3b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 41/47] fix: the password extractor writes passwords of 16 and
 more characters as they are, and no lines without a password

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index c6576f7..d9ee826 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -212,9 +212,10 @@ int main(int argc, const char *argv[])
     pwned::UserPasswordReader reader(inFile, readerOptions);
     while (!reader.eof() && !reader.bad())
     {
-      const std::string &pwd = reader.nextPassword().append("\n");
+      std::string pwd = reader.nextPassword();
       if (!pwd.empty())
       {
+        pwd.append("\n");
 #ifndef WITHOUT_BZ2
         if (compress)
         {
-- 
2.43.0


From 36470225fb1b104ffc568388089019ae68bbdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:46 +0000
Subject: [PATCH 42/47] fix: the markov generator fails if it cannot read its
 input or open its output, and ends if reading fails

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..301687b 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -135,11 +135,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
@@ -152,7 +154,7 @@ int main(int argc, char* argv[])
   {
     std::cout << "Reading from '" << inputFilename << "' (" << fileSize << " bytes) ..." << std::endl;
   }
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     const std::string &pwd = reader.nextPassword();
     bool ok = chain.train(pwd);
-- 
2.43.0


From 15baeef3b6717822061098cc7c9f550090e07ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:46 +0000
Subject: [PATCH 43/47] fix: the markov generator does not divide by zero if
 told to report every 0 passwords

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 301687b..9268e06 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -160,7 +160,7 @@ int main(int argc, char* argv[])
     bool ok = chain.train(pwd);
     if (ok)
     {
-      if (verbosity.level > 0 && ((n % outputEvery) == 0))
+      if (verbosity.level > 0 && outputEvery > 0 && ((n % outputEvery) == 0))
       {
         constexpr std::size_t BufSize = 8;
         char buf[BufSize];
-- 
2.43.0


From d643a6a61a882c7f76f7245490647e16e6b538b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:46 +0000
Subject: [PATCH 44/47] fix: the markov lookup ends if the model cannot be
 loaded, instead of answering with what was read of it

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..e7575af 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -41,7 +41,11 @@ int main(int argc, char *argv[])
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
   chain_type chain;
-  chain.loadBinary(inputFile);
+  if (chain.loadBinary(inputFile) != chain_type::OK)
+  {
+    std::cerr << "Cannot read a Markov model from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   while (true)
   {
     std::cout << "Type password: " << std::flush;
-- 
2.43.0


From e839754f82c1e550cfc8f68e84e6101c204f361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:46 +0000
Subject: [PATCH 45/47] fix: the markov lookup takes the whole line typed as
 the password

---
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index e7575af..027961b 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -51,7 +51,7 @@ int main(int argc, char *argv[])
     std::cout << "Type password: " << std::flush;
     std::string pwd;
     pwned::setStdinEcho(false);
-    std::cin >> pwd;
+    std::getline(std::cin, pwd);
     pwned::setStdinEcho(true);
     if (pwd.empty())
       break;
-- 
2.43.0


From 8e2cb9e10a4ca275a5b85940486d3cdc8780071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 46/47] fix: the test set extractor refuses a number of data
 sets that is not positive (division by zero)

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..d117ed4 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -119,6 +119,12 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
+  if (N < 1)
+  {
+    std::cerr << "ERROR: The number of data sets must be positive." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
   const std::streamoff offset = size / N;
   std::ifstream in(inputFilename, std::ios::binary);
-- 
2.43.0


From 5cf2e4e0480db4472b7717eb9d6b47959c8ef135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 47/47] fix: the test set extractor selects a record at most
 once, and ends if there are fewer records than asked for

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index d117ed4..d566bcb 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <fstream>
 #include <string>
+#include <algorithm>
 #include <random>
 #include <cstdint>
 
@@ -126,7 +127,7 @@ int main(int argc, const char *argv[])
   }
 
   const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-  const std::streamoff offset = size / N;
+  const std::streamoff offset = std::max(size / N, std::streamoff(pwned::PHC::size));
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
-- 
2.43.0

