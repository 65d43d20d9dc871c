From b7818fdbd284eff9405d9d9464216562456fbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 01/64] fix: json: print strings containing NUL in full

---
 src/text/json/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text/json/base.h b/src/text/json/base.h
index b608a95..32ff293 100644
--- a/src/text/json/base.h
+++ b/src/text/json/base.h
@@ -297,13 +297,14 @@ public:
     if (escape) {
       const char* p = dat.c_str();
       const char* end = p + dat.size();
-      while (*p) {
+      while (p != end) {
         pfi::data::string::uchar uc = pfi::data::string::chars_to_uchar(p, end);
         print_char(os, uc);
       }
     } else {
       const char* p = dat.c_str();
-      while (*p) {
+      const char* end = p + dat.size();
+      while (p != end) {
         print_char_without_escape(os, *p++);
       }
     }
-- 
2.43.0


From 230148ed13dd8c0192eda88102ee931190d1dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 02/64] fix: json: read the last character of a number at end
 of input, require its digits

---
 src/text/json/parser.cpp | 36 +++++++++++++++++-------------------
 src/text/json/parser.h   |  6 +++++-
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index e00e6ed..bb94c38 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -232,6 +232,17 @@ void json_parser::parse_array(callback& cb)
   cb.end_array();
 }
 
+void json_parser::parse_digits(std::string& src)
+{
+  if (eof() || !safe_isdigit(peek()))
+    error("digit required in number.");
+
+  while (!eof() && safe_isdigit(peek())) {
+    src += peek();
+    incr();
+  }
+}
+
 void json_parser::parse_number(callback& cb)
 {
   std::string src;
@@ -242,38 +253,25 @@ void json_parser::parse_number(callback& cb)
     incr();
   }
 
-  while ((cbuf != -1 || it != end) && safe_isdigit(peek())) {
-    src += peek();
-    incr();
-  }
+  parse_digits(src);
 
-  if (it != end && peek() == '.') {
+  if (!eof() && peek() == '.') {
     is_frac = true;
     src += '.';
     incr();
-    while (it != end && safe_isdigit(peek())) {
-      src += peek();
-      incr();
-    }
+    parse_digits(src);
   }
 
-  if (it != end && (peek() == 'e' || peek() == 'E')) {
+  if (!eof() && (peek() == 'e' || peek() == 'E')) {
     is_frac = true;
     src += peek();
     incr();
 
-    if (it == end)
-      error("after exp, digit required.");
-
-    if (peek() == '+' || peek() == '-') {
+    if (!eof() && (peek() == '+' || peek() == '-')) {
       src += peek();
       incr();
     }
-  }
-
-  while (it != end && safe_isdigit(peek())) {
-    src += peek();
-    incr();
+    parse_digits(src);
   }
 
   const char* srcptr = src.c_str();
diff --git a/src/text/json/parser.h b/src/text/json/parser.h
index 686f930..22ce56e 100644
--- a/src/text/json/parser.h
+++ b/src/text/json/parser.h
@@ -80,6 +80,7 @@ private:
   void parse_null(callback& cb);
   void parse_true(callback& cb);
 
+  void parse_digits(std::string& src);
   void parse_string_prim(char*& buf, int& buf_len, int& str_len);
 
   int parse_hex() {
@@ -104,6 +105,9 @@ private:
     }
     return cbuf;
   }
+  bool eof() {
+    return cbuf < 0 && it == end;
+  }
   int incr() {
     int c = peek();
     cbuf = -1;
@@ -115,7 +119,7 @@ private:
     return c;
   }
   void ss() {
-    while(it != end && safe_isspace(peek()))
+    while(!eof() && safe_isspace(peek()))
       incr();
   }
 
-- 
2.43.0


From 57f13594d12087c3b84a41438c538a11be32adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 03/64] fix: json: accept denormalized floating-point numbers

---
 src/text/json/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text/json/parser.cpp b/src/text/json/parser.cpp
index bb94c38..43d1ab5 100644
--- a/src/text/json/parser.cpp
+++ b/src/text/json/parser.cpp
@@ -281,11 +281,11 @@ void json_parser::parse_number(callback& cb)
     errno = 0;
     double num = strtod(srcptr, &endptr);
     if (errno == ERANGE) {
-      if (num == HUGE_VALF || num == HUGE_VALL)
+      if (num == HUGE_VAL || num == -HUGE_VAL)
         error("strtod overflow range over. Too huge value for double.");
       else if (num == 0.0)
         error("strtod underflow range over.");
-      error("strtod range over.");
+      // otherwise the value is a denormalized number, which is representable
     }
     cb.number(num);
   } else {
-- 
2.43.0


From a1b18b33a385950dbc81af76576cc7022d0dfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:55 +0000
Subject: [PATCH 04/64] fix: csv: stay inside the input and the row buffer

---
 src/text/csv.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text/csv.h b/src/text/csv.h
index b86a722..9f9d0b0 100644
--- a/src/text/csv.h
+++ b/src/text/csv.h
@@ -114,12 +114,12 @@ private:
       for (size_t bufcnt=0; ; ){
         size_t start=bufcnt;
 
-        if (*p=='\"'){
+        if (p != q && *p=='\"'){
           p++;
-          for (;;){
+          while (p != q){
             if (*p=='\"'){
               p++;
-              if (*p!='\"') break;
+              if (p == q || *p!='\"') break;
             }
             if (bufcnt>=buf.size()) extend();
             buf[bufcnt++]=*p++;
@@ -133,10 +133,12 @@ private:
           }
         }
 
+        if (bufcnt>=buf.size()) extend();
         buf[bufcnt++]='\0';
         cur.push_back(&buf[start]);
         if (p == q) break;
         if (*p=='\r') p++;
+        if (p == q) break;
         if (*p=='\n'){ p++; break; }
         p++;
       }
-- 
2.43.0


From 6804147a80ce7992bcc468f91712211f97f7a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 05/64] fix: serialization: stop loading a stream when the
 archive ends

---
 src/data/serialization/iostream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/serialization/iostream.h b/src/data/serialization/iostream.h
index 093ec7c..cd169b8 100644
--- a/src/data/serialization/iostream.h
+++ b/src/data/serialization/iostream.h
@@ -103,9 +103,11 @@ void serialize(Archive &ar, std::iostream &ios)
     char c[2]={};
     for (;;){
       ar & c[0];
+      if (!ar)
+        break;
       if (static_cast<unsigned char>(c[0])==0xff){
         ar & c[1];
-        if (c[1]==0x00)
+        if (!ar || c[1]==0x00)
           break;
         *p=0xff;
       }
-- 
2.43.0


From e5562dba4302fc85cacd42497f1a8d4c753e4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 06/64] fix: intern: do not write outside the table when
 loading a truncated archive

---
 src/data/intern.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/intern.h b/src/data/intern.h
index 6d92a18..aa01616 100644
--- a/src/data/intern.h
+++ b/src/data/intern.h
@@ -136,8 +136,11 @@ private:
       intern tmp;
       ar & tmp.tbl;
       tmp.lbt.resize(tmp.tbl.size());
-      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it)
+      for (typename map_t::iterator it = tmp.tbl.begin(); it != tmp.tbl.end(); ++it) {
+        if (!tmp.exist_id(it->second))
+          return; // truncated or broken archive
         tmp.lbt[it->second] = it->first;
+      }
       swap(tmp);
     } else {
       ar & tbl;
-- 
2.43.0


From bc1277b52ea81afafae3e7912dc348912c80d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 07/64] fix: ustring: only the ha-row katakana take a
 semi-voiced mark

---
 src/data/string/ustring.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/string/ustring.cpp b/src/data/string/ustring.cpp
index 7436b00..19e086d 100644
--- a/src/data/string/ustring.cpp
+++ b/src/data/string/ustring.cpp
@@ -74,11 +74,11 @@ static int take_dakuten_tbl[]={
 
 static int take_handakuten_tbl[]={
   //  ァアィイゥウェエォオカガキギク
-  0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //グケゲコゴサザシジスズセゼソゾタ
-  0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
   //ダチヂッツヅテデトドナニヌネノハ
-  0,1,0,0,1,0,1,0,1,0,0,0,0,0,0,1,
+  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,
   //バパヒビピフブプヘベペホボポマミ
   0,0,1,0,0,1,0,0,1,0,0,1,0,0,0,0,
   //ムメモャヤュユョヨラリルレロヮワ
-- 
2.43.0


From 19587432896e2eafb0ed462948e900f42fb1e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 08/64] fix: base64: refuse misplaced padding and data after
 padding

---
 src/data/encoding/base64.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/encoding/base64.cpp b/src/data/encoding/base64.cpp
index 199a6be..cff708c 100644
--- a/src/data/encoding/base64.cpp
+++ b/src/data/encoding/base64.cpp
@@ -117,12 +117,16 @@ string base64_decode(const string &s)
 
     int v3 = toint(*srcptr++);
     if (v3 == -1) {
+      if (*srcptr != '=' || i + 1 != blocks)
+        throw invalid_argument("invalid padding: "+s.substr(i * 4,4));
       break;
     }
     result.push_back(((v2 << 4) | (v3 >> 2)) & 0xff);
 
     int v4 = toint(*srcptr++);
     if (v4 == -1) {
+      if (i + 1 != blocks)
+        throw invalid_argument("invalid padding: "+s.substr(i * 4,4));
       break;
     }
     result.push_back(((v3 << 6) | v4) & 0xff);
-- 
2.43.0


From 7e4d086fd11145ff2ffb420158f28bd3d5824960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 09/64] fix: md5: print digests independently of the stream's
 formatting flags

---
 src/data/digest/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/digest/md5.cpp b/src/data/digest/md5.cpp
index 4b707cb..46f46ff 100644
--- a/src/data/digest/md5.cpp
+++ b/src/data/digest/md5.cpp
@@ -140,7 +140,7 @@ ostream &operator<<(ostream &os, const md5sum &m)
   const ios::fmtflags prev_flags = os.flags();
   const char prev_fill = os.fill('0');
   try {
-    os << hex;
+    os << hex << right << noshowbase << nouppercase;
     os << setw(2) << ((m.a>> 0)&0xff);
     os << setw(2) << ((m.a>> 8)&0xff);
     os << setw(2) << ((m.a>>16)&0xff);
-- 
2.43.0


From 1bfa23dcc121e4b70be481ac44287697a0dc1591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 10/64] fix: code: decoder::byte starts at a byte boundary, as
 encoder::byte does

---
 src/data/code/code.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/code/code.cpp b/src/data/code/code.cpp
index 900de9e..8478e3c 100644
--- a/src/data/code/code.cpp
+++ b/src/data/code/code.cpp
@@ -181,6 +181,10 @@ namespace code {
   }
 
   unsigned char decoder::byte() {
+    if (bit) {
+      ++pos;
+      bit=0;
+    }
     return bytes[pos++];
   }
 
-- 
2.43.0


From 7a68f7bf562878bed4489844e4a7fc9ff984aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 11/64] fix: string: strip must not index the ctype table with
 wide characters

---
 src/data/string/utility.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/data/string/utility.h b/src/data/string/utility.h
index b4b6982..9006bcc 100644
--- a/src/data/string/utility.h
+++ b/src/data/string/utility.h
@@ -100,17 +100,27 @@ inline std::vector<String> split(const String &str, const String &sep)
   return split<std::vector<String> >(str, sep);
 }
 
+namespace detail{
+// isspace for any character type; characters wider than a byte are not spaces
+template <class Char>
+inline bool is_space(Char c)
+{
+  return c == static_cast<Char>(static_cast<unsigned char>(c))
+    && isspace(static_cast<unsigned char>(c));
+}
+} // detail
+
 template <class String>
 void strip(const String &str, String &res)
 {
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
@@ -133,7 +143,7 @@ void lstrip(const String &str, String &res)
   typename String::const_iterator beg = str.begin();
   typename String::const_iterator end = str.end();
 
-  while (beg != end && isspace(*beg)) ++beg;
+  while (beg != end && detail::is_space(*beg)) ++beg;
 
   String(beg, end).swap(res);
 }
@@ -154,7 +164,7 @@ void rstrip(const String &str, String &res)
 
   while (beg != end) {
     --end;
-    if (!isspace(*end)) {
+    if (!detail::is_space(*end)) {
       end++;
       break;
     }
-- 
2.43.0


From a1c47273cc263e5a6d51088db7aae13e298b493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 12/64] fix: kmp: handle an empty query

---
 src/data/string/kmp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/string/kmp.h b/src/data/string/kmp.h
index 81fa474..5a7b421 100644
--- a/src/data/string/kmp.h
+++ b/src/data/string/kmp.h
@@ -46,7 +46,7 @@ public:
  explicit kmp(const T& q) {
    query=q;
    next=std::vector<int>(query.size());
-   int t=next[0]=0;
+   int t=0;
    for (int i=1;i<(int)query.size();++i) {
      while(t>0&&query[i]!=query[t]) t=next[t-1];
      if (query[i]==query[t]) next[i]=++t;
@@ -56,6 +56,8 @@ public:
 
  size_t find(const T& text, int offset = 0) const
  {
+   if (query.size()==0)
+     return offset<=(int)text.size() ? offset : std::string::npos;
    int t=0;
    for (int i=offset;i<(int)text.size();++i) {
      while(t>0&&text[i]!=query[t]) t=next[t-1];
-- 
2.43.0


From 507b7cbcc7561d2b0e4beec36621c15f53b33ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 13/64] fix: longest_increasing_subsequence: do not truncate
 the elements to int

---
 src/data/string/algorithm.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/data/string/algorithm.h b/src/data/string/algorithm.h
index bb4ca1a..d0f5de7 100644
--- a/src/data/string/algorithm.h
+++ b/src/data/string/algorithm.h
@@ -68,12 +68,14 @@ namespace string {
   int longest_increasing_subsequence(const A& a) {
     if (a.size()==0) return 0;
     
-    std::vector<int> tbl(a.size(),INT_MAX),id(a.size());
+    typedef typename A::value_type value_type;
+    std::vector<value_type> tbl;
     for (size_t i=0;i<a.size();++i) {
-      id[i]=std::lower_bound(tbl.begin(),tbl.end(),a[i])-tbl.begin();
-      tbl[id[i]]=a[i];
+      typename std::vector<value_type>::iterator it=std::lower_bound(tbl.begin(),tbl.end(),a[i]);
+      if (it==tbl.end()) tbl.push_back(a[i]);
+      else *it=a[i];
     }
-    return *max_element(id.begin(),id.end())+1;
+    return tbl.size();
   }
 
 } // string
-- 
2.43.0


From 10ab9680f975d15d190cc79876deace7bba548d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 14/64] fix: aho_corasick: find words that contain NUL

---
 src/data/string/aho_corasick.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/data/string/aho_corasick.cpp b/src/data/string/aho_corasick.cpp
index 6393108..3a00b02 100644
--- a/src/data/string/aho_corasick.cpp
+++ b/src/data/string/aho_corasick.cpp
@@ -75,12 +75,17 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
 
     memset(tbl, 0, sizeof(tbl));
     children_num=0;
+    int ended=0; // words that end at this node, they come first
     
     if ((int)words[ix].first.length()==dep)
       nodes[pos].output=words[ix].second;
     
     for (int i=0;i<n;i++){
-      int c=dep<(int)words[ix+i].first.length()?(unsigned char)words[ix+i].first[dep]:0;
+      if (dep>=(int)words[ix+i].first.length()){
+        ended++;
+        continue;
+      }
+      int c=(unsigned char)words[ix+i].first[dep];
       if (tbl[c]++==0)
         children[children_num++]=c;
     }
@@ -88,7 +93,7 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     int base=max(1, bef_base-32);
     for (;;base++){
       bool ok=true;
-      for (int ci=children[0]==0?1:0;ci<children_num;ci++){
+      for (int ci=0;ci<children_num;ci++){
         int i=children[ci];
         if (nodes[base+i].check>=0){
           ok=false;
@@ -99,11 +104,11 @@ void aho_corasick::construct(const vector<pair<std::string, int> > &words)
     }
 
     nodes[pos].base=base;
-    for (int cur=0, ci=0;ci<children_num;ci++){
+    for (int cur=ended, ci=0;ci<children_num;ci++){
       int i=children[ci];
-      if (i>0 && tbl[i]>0){
+      if (tbl[i]>0){
         int nix=nodes[pos].base+i;
-        if (nix+256>=(int)nodes.size()) nodes.resize(nix+256);
+        if (nix+257>(int)nodes.size()) nodes.resize(nix+257);
         nodes[nix].check=pos;
         ss.push(make_pair(make_pair(nix, dep+1), make_pair(ix+cur, tbl[i])));
       }
-- 
2.43.0


From de494fb3450da04ebc74538921026063250643fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 15/64] fix: uri: do not skip three characters after a
 percent-escape in the user information

---
 src/network/uri.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 140c5ea..929be19 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -326,10 +326,8 @@ bool uri::parse_userinfo(const char *&p)
       p++;
       continue;
     }
-    if (parse_pct_encoded(p)){
-      p+=3;
+    if (parse_pct_encoded(p))
       continue;
-    }
     break;
   }
 
-- 
2.43.0


From dbbbc9738e40145afe83ece6fe5df22195092968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 16/64] fix: uri: read the whole IPvFuture literal

---
 src/network/uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 929be19..1785ff9 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -402,9 +402,9 @@ bool uri::parse_ipvfuture(const char *&p)
       *p!=':')
     return false;
 
-  while(!is_unreserved(*p)&&
-      !is_sub_delims(*p)&&
-      *p!=':')
+  while(is_unreserved(*p)||
+      is_sub_delims(*p)||
+      *p==':')
     p++;
 
   return true;
-- 
2.43.0


From 4250dc250a4a69fa5fa0e0209f2d9a11ca826d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 17/64] fix: uri: accept host names that start like an IPv4
 address

---
 src/network/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index 1785ff9..feb4f0c 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -340,8 +340,8 @@ bool uri::parse_host(const char *&p)
 {
   const char *org=p;
 
+  // an IPv4 address is a registered name, too
   if (!parse_ip_literal(p)&&
-      !(p=org, parse_ipv4address(p))&&
       !(p=org, parse_reg_name(p)))
     return false;
 
-- 
2.43.0


From cbe8c0450536718b53fc8142f3262574f2f823ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 18/64] fix: uri: accept IPv6 literals with shortened groups

---
 src/network/uri.cpp | 56 +++++++++++++++------------------------------
 src/network/uri.h   |  1 +
 2 files changed, 19 insertions(+), 38 deletions(-)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index feb4f0c..b752667 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -470,8 +470,7 @@ bool uri::parse_ipv6_2(const char *&p)
 
 bool uri::parse_ipv6_3(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p)) p=org;
+  parse_ipv6_head(p,0);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -483,9 +482,7 @@ bool uri::parse_ipv6_3(const char *&p)
 
 bool uri::parse_ipv6_4(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,1);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -496,10 +493,7 @@ bool uri::parse_ipv6_4(const char *&p)
 
 bool uri::parse_ipv6_5(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,2);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
@@ -509,11 +503,7 @@ bool uri::parse_ipv6_5(const char *&p)
 
 bool uri::parse_ipv6_6(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,3);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p) || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
@@ -522,12 +512,7 @@ bool uri::parse_ipv6_6(const char *&p)
 
 bool uri::parse_ipv6_7(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,4);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_ls32(p)) return false;
   return true;
@@ -535,13 +520,7 @@ bool uri::parse_ipv6_7(const char *&p)
 
 bool uri::parse_ipv6_8(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,5);
   if (*p++!=':' || *p++!=':') return false;
   if (!parse_h16(p)) return false;
   return true;
@@ -549,24 +528,25 @@ bool uri::parse_ipv6_8(const char *&p)
 
 bool uri::parse_ipv6_9(const char *&p)
 {
-  const char *org=p;
-  if (!parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p) || *p++!=':' ||
-      !parse_h16(p)) p=org;
+  parse_ipv6_head(p,6);
   if (*p++!=':' || *p++!=':') return false;
   return true;
 }
 
+// [ *n( h16 ":" ) h16 ] before "::"
+void uri::parse_ipv6_head(const char *&p, int n)
+{
+  const char *org=p;
+  bool ok=parse_h16(p);
+  for (int i=0;ok && i<n && p[0]==':' && p[1]!=':';i++)
+    ok=parse_h16(++p);
+  if (!ok) p=org;
+}
+
 bool uri::parse_h16(const char *&p)
 {
   if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false; 
-  if (!isxdigit(*p++)) return false;
-  if (!isxdigit(*p++)) return false;
+  for (int i=1;i<4 && isxdigit(*p);i++) p++;
   return true;
 }
 
diff --git a/src/network/uri.h b/src/network/uri.h
index 39e78aa..8e03690 100644
--- a/src/network/uri.h
+++ b/src/network/uri.h
@@ -81,6 +81,7 @@ private:
   bool parse_ipv6_7(const char *&p);
   bool parse_ipv6_8(const char *&p);
   bool parse_ipv6_9(const char *&p);
+  void parse_ipv6_head(const char *&p, int n);
   bool parse_h16(const char *&p);
   bool parse_ls32(const char *&p);
   bool parse_ipv4address(const char *&p);
-- 
2.43.0


From d6503d715e80f76b5fb0e15c425af49f18240cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 19/64] fix: uri: refuse text that contains NUL

---
 src/network/uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/uri.cpp b/src/network/uri.cpp
index b752667..1ab810c 100644
--- a/src/network/uri.cpp
+++ b/src/network/uri.cpp
@@ -149,6 +149,8 @@ bool uri::parse(const string &s)
   const char *p=s.c_str();
 
   clear();
+  if (s.find('\0')!=string::npos)
+    return false;
   if (parse_uri(p))
     return true;
   p=s.c_str();
-- 
2.43.0


From ea9f31c8b249118e17711f01a15dea3f5262f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 20/64] fix: ratio: do not truncate wide integers to int when
 reducing

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 6f51542..2a57497 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -59,7 +59,8 @@ public:
 private:
   T num_, den_;
   static T gcd(T a, T b){
-    a=abs(a); b=abs(b);
+    if(a<0) a=-a;
+    if(b<0) b=-b;
     while(true){
       a=a%b;
       if(a==0) return b;
-- 
2.43.0


From eae4d47f31b65bbacc443b3d614f4d6f4f36605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 21/64] fix: ratio: dividing a ratio by itself gives 1/1

---
 src/math/ratio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/ratio.h b/src/math/ratio.h
index 2a57497..e11c78e 100644
--- a/src/math/ratio.h
+++ b/src/math/ratio.h
@@ -118,8 +118,9 @@ template<class T>
 inline ratio<T>& operator/=(ratio<T> &a, const ratio<T> &b){
   T gcd1=ratio<T>::gcd(a.num_, b.num_);
   T gcd2=ratio<T>::gcd(a.den_, b.den_);
-  a.num_=(a.num_/gcd1)*(b.den_/gcd2);
+  T num=(a.num_/gcd1)*(b.den_/gcd2); // b may be a itself
   a.den_=(a.den_/gcd2)*(b.num_/gcd1);
+  a.num_=num;
   if(a.den_<0){
     a.num_*=-1; a.den_*=-1;
   }
-- 
2.43.0


From f7173bfe9e8876cb2b5ca89bb3f912e8a0f5e2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 22/64] fix: mmapper: a closed mapper has size 0

---
 src/system/mmapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/mmapper.cpp b/src/system/mmapper.cpp
index ce1af2e..d857a28 100644
--- a/src/system/mmapper.cpp
+++ b/src/system/mmapper.cpp
@@ -78,6 +78,7 @@ int mmapper::close()
   if (ptr != NULL) {
     munmap(ptr, length);
     ptr = NULL;
+    length = 0;
   }
   return 0;
 }
-- 
2.43.0


From 5e364a4b992e4eb18423ebcafd85bc0006692b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 23/64] fix: database: pass ten arguments and fetch eight to
 ten columns

---
 src/database/statement.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/database/statement.h b/src/database/statement.h
index 98a0a91..3b52f82 100644
--- a/src/database/statement.h
+++ b/src/database/statement.h
@@ -154,7 +154,7 @@ public:
 
   template <class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8, class T9, class T10>
   int execute(T1 a1, T2 a2, T3 a3, T4 a4, T5 a5, T6 a6, T7 a7, T8 a8, T9 a9, T10 a10){
-    std::vector<pfi::lang::shared_ptr<sql_value> > args(9);
+    std::vector<pfi::lang::shared_ptr<sql_value> > args(10);
     args[0]=to_sql(a1);
     args[1]=to_sql(a2);
     args[2]=to_sql(a3);
@@ -256,7 +256,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=7) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -272,7 +272,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=8) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
@@ -281,7 +281,7 @@ public:
     r6=from_sql<T6>(ret[5]);
     r7=from_sql<T7>(ret[6]);
     r8=from_sql<T8>(ret[7]);
-    r9=from_sql<T8>(ret[8]);
+    r9=from_sql<T9>(ret[8]);
     return true;
   }
 
@@ -289,7 +289,7 @@ public:
   bool fetch_row(T1 &r1, T2 &r2, T3 &r3, T4 &r4, T5 &r5, T6 &r6, T7 &r7, T8 &r8, T9 &r9, T10 &r10){
     std::vector<pfi::lang::shared_ptr<sql_value> > ret;
     if (!fetch_row(ret)) return false;
-    if (ret.size()!=9) throw database_error("fetch_row: argument number mismatch");
+    if (ret.size()!=10) throw database_error("fetch_row: argument number mismatch");
     r1=from_sql<T1>(ret[0]);
     r2=from_sql<T2>(ret[1]);
     r3=from_sql<T3>(ret[2]);
-- 
2.43.0


From 5cadea82725b32e0c86827618d0a9548e1e33539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 24/64] fix: time_util: find out whether daylight saving time
 is in effect when making a calendar time from its fields

---
 src/system/time_util.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/system/time_util.cpp b/src/system/time_util.cpp
index 1b0761c..3a5bad1 100644
--- a/src/system/time_util.cpp
+++ b/src/system/time_util.cpp
@@ -39,7 +39,8 @@ namespace pfi{
 namespace system{
 namespace time{
 
-clock_time::clock_time(const calendar_time &ct)
+// isdst: as tm_isdst, negative when it has to be found out
+static clock_time make_clock_time(const calendar_time &ct, int isdst)
 {
   tm t={};
   t.tm_sec=ct.sec;
@@ -48,12 +49,16 @@ clock_time::clock_time(const calendar_time &ct)
   t.tm_mday=ct.mday;
   t.tm_mon=ct.mon-1;
   t.tm_year=ct.year-1900;
-  t.tm_isdst=ct.isdst;
+  t.tm_isdst=isdst;
 
   time_t r=mktime(&t);
 
-  sec=static_cast<uint64_t>(r);
-  usec=static_cast<int32_t>(ct.usec);
+  return clock_time(static_cast<uint64_t>(r), static_cast<int32_t>(ct.usec));
+}
+
+clock_time::clock_time(const calendar_time &ct)
+{
+  *this=make_clock_time(ct, ct.isdst);
 }
 
 calendar_time::calendar_time()
@@ -99,7 +104,7 @@ calendar_time::calendar_time(
   , sec(sec)
   , usec(usec)
 {
-  clock_time ct(*this);
+  clock_time ct(make_clock_time(*this, -1));
   *this=calendar_time(ct);
 }
 
-- 
2.43.0


From 04b1649a5dabfdc72334a9528488bafd3a1fce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:21 +0000
Subject: [PATCH 25/64] fix: vector: outer products of vectors stored as arrays

---
 src/math/vector.h            | 4 ++--
 src/math/vector_operators.rb | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/vector.h b/src/math/vector.h
index 0624997..d4c94d1 100644
--- a/src/math/vector.h
+++ b/src/math/vector.h
@@ -279,7 +279,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     t operator%(const vector2<t> & a, const vector2<t> & b){
-    return a.x*b.y - a.y*b.x;
+    return a.r[0]*b.r[1] - a.r[1]*b.r[0];
   }
 
   /// +=
@@ -610,7 +610,7 @@ namespace component_by_array{
   ///outer product; outer product uses % operator.
   template<class t>
     vector3<t> operator%(const vector3<t> & a, const vector3<t> & b){
-    return vector3<t>(a.y*b.z - a.z*b.y,a.z*b.x - a.x*b.z,a.x*b.y - a.y*b.x);
+    return vector3<t>(a.r[1]*b.r[2] - a.r[2]*b.r[1],a.r[2]*b.r[0] - a.r[0]*b.r[2],a.r[0]*b.r[1] - a.r[1]*b.r[0]);
   }
 
   /// +=
diff --git a/src/math/vector_operators.rb b/src/math/vector_operators.rb
index 8454b2a..df460ba 100644
--- a/src/math/vector_operators.rb
+++ b/src/math/vector_operators.rb
@@ -65,14 +65,14 @@ CPPEND
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{scalar} operator%(const #{mytype} & a, const #{mytype} & b){
-    return a.x*b.y - a.y*b.x;
+    return a.#{cs[0]}*b.#{cs[1]} - a.#{cs[1]}*b.#{cs[0]};
   }
 CPPEND
   ret+= <<CPPEND if dim == 3 
   ///outer product; outer product uses % operator.
   #{template_dec}
     #{mytype} operator%(const #{mytype} & a, const #{mytype} & b){
-    return #{constructor['a.y*b.z - a.z*b.y', 'a.z*b.x - a.x*b.z', 'a.x*b.y - a.y*b.x' ]};
+    return #{constructor[[[1,2],[2,0],[0,1]].map{|i,j| "a.#{cs[i]}*b.#{cs[j]} - a.#{cs[j]}*b.#{cs[i]}"}]};
   }
 CPPEND
 
-- 
2.43.0


From 72a385e69ffaee2f62a0d126579e17d7763d346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:40 +0000
Subject: [PATCH 26/64] fix: mmapper: a moved mapper keeps its mapping

---
 src/system/mmapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/mmapper.h b/src/system/mmapper.h
index 204244b..85a9b71 100644
--- a/src/system/mmapper.h
+++ b/src/system/mmapper.h
@@ -47,8 +47,8 @@ public:
   typedef const char* const_iterator;
 
   mmapper() : ptr(NULL), length(0), fd(-1) {}
-  mmapper(mmapper&& rhs) : ptr(std::move(rhs.ptr)), length(std::move(rhs.length)), fd(std::move(rhs.fd)) {
-    mmapper().swap(rhs);
+  mmapper(mmapper&& rhs) : ptr(NULL), length(0), fd(-1) {
+    swap(rhs);
   }
   ~mmapper() { close(); }
 
-- 
2.43.0


From 23756d258e25b6f33b43fd56b4d3d70613750125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 27/64] fix: ipv4: refuse text around and between the four
 numbers, and numbers that overflow

---
 src/network/ipv4.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/network/ipv4.h b/src/network/ipv4.h
index a0ec2a6..31a8138 100644
--- a/src/network/ipv4.h
+++ b/src/network/ipv4.h
@@ -56,18 +56,24 @@ public:
   }
 
   explicit ipv4_address(const std::string& s) {
-    int buf[4];
-    if (std::sscanf(s.c_str(), "%d.%d.%d.%d", &buf[0], &buf[1], &buf[2], &buf[3]) != 4) {
-      *this = none;
-      return;
-    }
-    for (size_t i = 0; i < sizeof(buf)/sizeof(buf[0]); ++i) {
-      ip[i] = buf[i];
-      if (buf[i] < 0 || buf[i] > 255) {
+    size_t pos = 0;
+    for (size_t i = 0; i < sizeof(ip); ++i) {
+      if (i > 0 && (pos >= s.size() || s[pos++] != '.')) {
+        *this = none;
+        return;
+      }
+      int num = 0;
+      const size_t start = pos;
+      for (; pos < s.size() && '0' <= s[pos] && s[pos] <= '9' && num <= 255; ++pos)
+        num = num * 10 + (s[pos] - '0');
+      if (pos == start || num > 255) {
         *this = none;
         return;
       }
+      ip[i] = num;
     }
+    if (pos != s.size())
+      *this = none;
   }
 
   bool operator==(const ipv4_address& p) const {
-- 
2.43.0


From 63cd8ad626502293a255b75c5b906531e7ca6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 28/64] fix: http: deliver bytes above 0x7f of chunked bodies

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index f8304de..0caff05 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -249,7 +249,7 @@ public:
       fill();
     if (empty())
       return T::eof();
-    return buf[buf_pos];
+    return T::to_int_type(buf[buf_pos]);
   }
 
 private:
-- 
2.43.0


From 35eddaf2046f46505a2572b5d00c45456c9652d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 29/64] fix: http: a body of length 0 is empty

---
 src/network/http/base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index 0caff05..ce7c130 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -350,7 +350,7 @@ public:
 
   int underflow() {
     if (buf == T::eof()) {
-      if (!sock)
+      if (!sock || rest <= 0)
         return T::eof();
       buf = sock->getc();
       if (--rest == 0)
-- 
2.43.0


From 4da440de081b7a47bc09f1637db570918fede9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 30/64] fix: http: refuse negative chunk sizes

---
 src/network/http/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index ce7c130..a1162f3 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -321,6 +321,8 @@ private:
 
     istringstream iss(line);
     iss >> hex >> chunk_rest;
+    if (chunk_rest < 0)
+      throw http_exception("invalid chunk size");
   }
 
   pfi::lang::shared_ptr<stream_socket> sock;
-- 
2.43.0


From 3cbcd35fa65b92dc873b3c01b192716040135da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 31/64] fix: socket: a reconnected socket starts with empty
 buffers

---
 src/network/socket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 5c2a51f..f0f9a10 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -168,6 +168,10 @@ bool stream_socket::open()
 {
   if (sock>=0) return false;
 
+  // nothing of an earlier connection may remain
+  rdbuf_p=rdbuf_end=0;
+  wrbuf_size=0;
+
   NO_INTR(sock,::socket(PF_INET,SOCK_STREAM,0));
   if (FAILED(sock)){
     sock=-1;
-- 
2.43.0


From df4cd5a16fd184be556d97a7996a5b625dd1a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 32/64] fix: dns: cached answers expire

---
 src/network/dns.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index adcaaa1..a217835 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -113,6 +113,11 @@ private:
   std::map<std::pair<std::string, uint16_t>,
     std::pair<std::vector<ipv4_address>, time_t> > cache;
 
+  // when the entries of cache were obtained
+  std::map<std::pair<std::string, uint16_t>, time_t> resolved_time;
+
+  void erase(const std::pair<std::string, uint16_t> &key);
+
   std::multiset<std::pair<time_t, std::pair<std::string, uint16_t> > > access_time;
 
   normal_dns_resolver norm;
@@ -152,12 +157,20 @@ cached_dns_resolver::impl::~impl()
 {
 }
 
+void cached_dns_resolver::impl::erase(const pair<string,uint16_t> &key)
+{
+  access_time.erase(make_pair(cache[key].second, key));
+  cache.erase(key);
+  resolved_time.erase(key);
+}
+
 void cached_dns_resolver::impl::clear_cache()
 {
   pfi::concurrent::scoped_lock lock(m);
   if (lock) {
     cache.clear();
     access_time.clear();
+    resolved_time.clear();
   }
 }
 
@@ -165,10 +178,7 @@ void cached_dns_resolver::impl::delete_cache(const string &host, uint16_t port)
 {
   pfi::concurrent::scoped_lock lock(m);
   if (lock) {
-    pair<string,uint16_t> key(host,port);
-    time_t del_time=cache[key].second;
-    access_time.erase(make_pair(del_time,key));
-    cache.erase(key);
+    erase(make_pair(host,port));
   }
 }
 
@@ -192,13 +202,12 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
         cache[key].second = cur;
 
         // is not expire
-        if (cur-cache[key].second < expire_second) {
+        if (cur-resolved_time[key] < expire_second) {
           return cache[key].first;
         }
 
         // expire, so delete cache
-        access_time.erase(make_pair(cur, key));
-        cache.erase(key);
+        erase(key);
       }
     }
   }
@@ -215,13 +224,13 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
         assert(access_time.size() == cache.size());
         // oldest entry must be head, so delete it
         pair<string,uint16_t> del_key = access_time.begin()->second;
-        cache.erase(del_key);
-        access_time.erase(access_time.begin());
+        erase(del_key);
       }
 
       // register to cache
       access_time.insert(make_pair(cur, key));
       cache[key] = make_pair(ret, cur);
+      resolved_time[key] = cur;
     }
   }
 
-- 
2.43.0


From 350fb79afcb9d78dc42d270a9f91e0cf877ca524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 33/64] fix: dns: keep the cache consistent when threads
 resolve the same host at once

---
 src/network/dns.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/dns.cpp b/src/network/dns.cpp
index a217835..76fa5df 100644
--- a/src/network/dns.cpp
+++ b/src/network/dns.cpp
@@ -219,6 +219,9 @@ vector<ipv4_address> cached_dns_resolver::impl::resolve(const string &host, uint
   {
     pfi::concurrent::scoped_lock lock(m);
     if (lock) {
+      // another thread may have registered it meanwhile
+      erase(key);
+
       // is cache full?
       while ((int)cache.size() >= max_size) {
         assert(access_time.size() == cache.size());
-- 
2.43.0


From 3fe4abaed4a54f11e41b7de31886f4ccdb319e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:56 +0000
Subject: [PATCH 34/64] fix: http: header lines read from a stream may end in
 CRLF

---
 src/network/http/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index a1162f3..dfc3c1e 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -133,6 +133,8 @@ header::header(const pfi::lang::shared_ptr<stream_socket>& sock)
 static bool istream_getline(istream* is, string* str)
 {
   getline(*is, *str);
+  if (str->length() > 0 && (*str)[str->length()-1] == '\r')
+    str->resize(str->length()-1);
   return is->good();
 }
 
-- 
2.43.0


From 10e7f6b1f5c54be56371623e204ef5eb9f67f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 35/64] fix: cgi: keep semicolons in quoted form field and file
 names

---
 src/network/cgi/base.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index c069469..8c84df8 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -183,7 +183,7 @@ static inline pair<string, string> extract_attr(const string &s)
   if (ix==string::npos) return make_pair(key, "");
   ix++;
   string::size_type jx=s.find('\"', ix);
-  if (jx==string::npos) return make_pair(key, "");
+  if (jx==string::npos) return make_pair(key, trim(s.substr(ix)));
   string::size_type kx=s.find('\"', jx+1);
   if (kx==string::npos) return make_pair(key, "");
   return make_pair(key, s.substr(jx+1, kx-jx-1));
@@ -192,20 +192,21 @@ static inline pair<string, string> extract_attr(const string &s)
 static inline pair<string, map<string, string> >
 extract_header(const string &s)
 {
-  string val;
-  map<string, string> attr;
-
-  string::size_type cur=s.find(';');
-  val=s.substr(0, cur);
-
-  for (; cur!=string::npos; ){
-    cur++;
-    string::size_type next=s.find(';', cur);
-    attr.insert(extract_attr(s.substr(cur, next)));
-    cur=next;
+  vector<string> elems(1);
+  bool quoted=false;
+  for (size_t i=0; i<s.length(); i++){
+    if (s[i]=='\"') quoted=!quoted;
+    if (s[i]==';' && !quoted)
+      elems.push_back("");
+    else
+      elems.back()+=s[i];
   }
 
-  return make_pair(val, attr);
+  map<string, string> attr;
+  for (size_t i=1; i<elems.size(); i++)
+    attr.insert(extract_attr(elems[i]));
+
+  return make_pair(elems[0], attr);
 }
 
 void cgi::parse_multipart_input(const string &s, const string &boundary)
-- 
2.43.0


From 2453e3dd4bc713d8aa4e8a354cb623360c92d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:19 +0000
Subject: [PATCH 36/64] fix: cgi: find multipart delimiters exactly and refuse
 bodies without them

---
 src/network/cgi/base.cpp | 84 ++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/network/cgi/base.cpp b/src/network/cgi/base.cpp
index 8c84df8..43d2a76 100644
--- a/src/network/cgi/base.cpp
+++ b/src/network/cgi/base.cpp
@@ -49,6 +49,8 @@ cgi::cgi()
 {
 }
 
+static string extract_boundary(const string &content_type);
+
 void cgi::set_max_content_length(size_t length)
 {
   max_content_length=length;
@@ -94,13 +96,13 @@ void cgi::exec(istream& in,
       }
       else{
         if (env["CONTENT_TYPE"].find("multipart/")!=string::npos){
-          string::size_type ix=env["CONTENT_TYPE"].find("boundary=");
-          if (ix==string::npos){
+          try{
+            parse_multipart_input(dat, extract_boundary(env["CONTENT_TYPE"]));
+          }
+          catch(const http::http_exception&){
             valid=false;
             invalid_msg="Invalid html protocol";
           }
-          string boundary=env["CONTENT_TYPE"].substr(ix+9);
-          parse_multipart_input(dat, boundary);
         }
         else
           parse_input(dat);
@@ -209,53 +211,53 @@ extract_header(const string &s)
   return make_pair(elems[0], attr);
 }
 
+static string extract_boundary(const string &content_type)
+{
+  map<string, string> attr=extract_header(content_type).second;
+  if (attr["boundary"]=="")
+    throw http::http_exception("no multipart boundary");
+  return attr["boundary"];
+}
+
+// finds a line which starts with delim
+static string::size_type find_delimiter(const string &s, const string &delim, string::size_type pos)
+{
+  pos=s.find(delim, pos);
+  while(pos!=string::npos && pos>0 && s[pos-1]!='\n')
+    pos=s.find(delim, pos+1);
+  return pos;
+}
+
 void cgi::parse_multipart_input(const string &s, const string &boundary)
 {
-  bool end=false;
+  const string delim="--"+boundary;
 
-  istringstream iss(s);
-  for (string line; getline(iss, line); ){
-    if (line.substr(0, boundary.length()+2)=="--"+boundary){
-      if (line.substr(0, boundary.length()+4)=="--"+boundary+"--")
-        end=true;
+  for (string::size_type pos=find_delimiter(s, delim, 0); ; ){
+    if (pos==string::npos)
+      throw http::http_exception("no multipart delimiter");
+    pos+=delim.length();
+    if (s.compare(pos, 2, "--")==0)
       break;
-    }
-  }
 
-  for (; !end; ){
-    string str;
-    ssize_t cnt=0;
-    for (char a=0, b=0, c=0; iss.get(c); a=b, b=c, cnt++){
-      if (a=='\n' && b=='-' && c=='-'){
-        string chk(boundary.length(), ' ');
-        iss.read(&chk[0], boundary.length());
-        if (chk==boundary){
-          int cnt=0;
-          while(iss.get(a) && a!='\n'){
-            if (a=='-'){ if (cnt>=0 && ++cnt==2) end=true; }
-            else cnt=-1;
-          }
-          if (str.length()>0 && str[str.length()-1]=='\r')
-            str.resize(str.length()-1);
-          break;
-        }
-        str+=a;
-        str+="--";
-        str+=chk;
-        cnt=-1;
-        continue;
-      }
-      if (cnt>=2) str+=a;
-    }
+    string::size_type begin=s.find('\n', pos);
+    if (begin==string::npos)
+      throw http::http_exception("no multipart delimiter");
+    begin++;
+    pos=find_delimiter(s, delim, begin);
+    if (pos==string::npos)
+      throw http::http_exception("no multipart delimiter");
+
+    string::size_type end=pos;
+    if (end>begin) end--;
+    if (end>begin && s[end-1]=='\r') end--;
+    string str=s.substr(begin, end-begin);
 
     istringstream jss(str);
     http::header hd(jss);
-    string body=(jss?str.substr(jss.tellg()):"");
+    string body=(jss.good()?str.substr(jss.tellg()):"");
     const string &ct=hd["Content-Type"];
     if (ct.find("multipart/")!=string::npos){
-      string::size_type ix=ct.find("boundary=");
-      string bd=ct.substr(ix+9);
-      parse_multipart_input(body, bd);
+      parse_multipart_input(body, extract_boundary(ct));
     }
     else{
       const string &cd=hd["Content-Disposition"];
-- 
2.43.0


From 7c7f2a07d303534c3b119a0643b38efd43c1ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:14 +0000
Subject: [PATCH 37/64] fix: rpc: report the whole name of a method that is not
 found

---
 src/network/rpc/caller.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/network/rpc/caller.h b/src/network/rpc/caller.h
index c78f9ea..5ffb1de 100644
--- a/src/network/rpc/caller.h
+++ b/src/network/rpc/caller.h
@@ -32,6 +32,10 @@
 #ifndef INCLUDE_GUARD_PFI_NETWORK_RPC_CALLER_H_
 #define INCLUDE_GUARD_PFI_NETWORK_RPC_CALLER_H_
 
+#include <algorithm>
+#include <sstream>
+#include <string>
+
 #include "../../lang/bind.h"
 #include "../../data/serialization.h"
 
@@ -51,9 +55,8 @@ static inline void gen_exception(const std::string &str)
   std::string code;
   iss>>code;
   if (code=="NotFound"){
-    std::string name;
-    iss>>name;
-    throw method_not_found(name);
+    // the name is everything after the separating space
+    throw method_not_found(str.substr(std::min(str.length(), code.length()+1)));
   }
   if (code=="VersionMismatch"){
     int sver, cver;
-- 
2.43.0


From 2aaafbf15e4bbcf815e2fb567fbd260453df7508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:59 +0000
Subject: [PATCH 38/64] fix: rpc: an error answer is not lost when arguments
 are still being sent

---
 src/network/rpc/base.cpp |  4 ++++
 src/network/rpc/caller.h |  5 ++++-
 src/network/socket.cpp   | 14 ++++++++++++++
 src/network/socket.h     |  4 ++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 69c8a0f..bc0261f 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -209,6 +209,8 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
         string msg(string("NotFound ")+name);
         oa<<msg;
         oa.flush();
+        // arguments may still be on their way
+        sock->close_gracefully();
         break;
       }
 
@@ -217,6 +219,8 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
+        // arguments may still be on their way
+        sock->close_gracefully();
         break;
       }
 
diff --git a/src/network/rpc/caller.h b/src/network/rpc/caller.h
index 5ffb1de..ce10ee3 100644
--- a/src/network/rpc/caller.h
+++ b/src/network/rpc/caller.h
@@ -80,7 +80,10 @@ static inline void gen_exception(const std::string &str)
   oa.flush(); \
   std::string result_code; \
   ia >> result_code; \
-  if (result_code!="OK") gen_exception(result_code); \
+  if (result_code!="OK"){ \
+    r(pfi::lang::shared_ptr<socketstream>()); /* the server ends the connection */ \
+    gen_exception(result_code); \
+  } \
   ia >> ret; \
   if (!ss) throw rpc_error("cannot recv return value");
 
diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index f0f9a10..9715428 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -144,6 +144,20 @@ bool stream_socket::shutdown()
   return true;
 }
 
+bool stream_socket::close_gracefully()
+{
+  flush();
+  if (!connected) return false;
+
+  int res;
+  NO_INTR(res,::shutdown(sock, SHUT_WR));
+  if (SUCCEEDED(res)){
+    vector<unsigned char> discarded(buf_size);
+    while(recv(&discarded[0], discarded.size())>0);
+  }
+  return !connected || close();
+}
+
 bool stream_socket::bind_socket(int sock)
 {
   return bind_socket(sock, ipv4_address(), 0);
diff --git a/src/network/socket.h b/src/network/socket.h
index dd58275..80ff585 100644
--- a/src/network/socket.h
+++ b/src/network/socket.h
@@ -60,6 +60,10 @@ public:
   bool connect(const std::string &host, uint16_t port_num);
   bool shutdown();
 
+  // Closes the connection after everything written was sent and the peer has
+  // closed its side, so that what was sent last is not lost by a reset.
+  bool close_gracefully();
+
   bool is_connected() const;
 
   const ipv4_address &remote_addr() const;
-- 
2.43.0


From 160ca0b3c97b15e0060fe61fc3c4a559ad1555c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:48 +0000
Subject: [PATCH 39/64] fix: qsem: wait(q) takes q units, not one

---
 src/concurrent/qsem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/qsem.h b/src/concurrent/qsem.h
index 0191c90..8a4f2b8 100644
--- a/src/concurrent/qsem.h
+++ b/src/concurrent/qsem.h
@@ -56,7 +56,7 @@ public:
       if (lock) {
         while (quantity < q)
           cond.wait(m);
-        quantity--;
+        quantity -= q;
         return true;
       }
     }
-- 
2.43.0


From d9209ca7fdd88b00ccfbd1217afa970422bb3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:48 +0000
Subject: [PATCH 40/64] fix: rw_mutex: read_lock without waiting reports
 success as true

---
 src/concurrent/rwmutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/concurrent/rwmutex.cpp b/src/concurrent/rwmutex.cpp
index a5e610e..3815b46 100644
--- a/src/concurrent/rwmutex.cpp
+++ b/src/concurrent/rwmutex.cpp
@@ -96,7 +96,7 @@ bool rw_mutex::impl::read_lock(double sec)
   if (!valid) return false;
 
   if (sec<1e-9)
-    return pthread_rwlock_tryrdlock(&lk);
+    return pthread_rwlock_tryrdlock(&lk)==0;
 
   timespec end=to_timespec(get_clock_time()+sec);
   return pthread_rwlock_timedrdlock(&lk, &end)==0;
-- 
2.43.0


From 49a6209afbd11dab3160bcdad65b522ff7b6fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:22 +0000
Subject: [PATCH 41/64] fix: json: an optional value with a default keeps the
 default of its absent members in json_cast_with_default

---
 src/text/json/cast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/json/cast.h b/src/text/json/cast.h
index 562604f..a5743fd 100644
--- a/src/text/json/cast.h
+++ b/src/text/json/cast.h
@@ -574,7 +574,7 @@ inline void serialize(json_iarchive_cast_with_default& js, pfi::data::optional<T
   if (is<json_null>(js.get()))
     v = pfi::data::optional<T>();
   else {
-    T t;
+    T t = v ? *v : T();
     serialize(js, t);
     v = t;
   }
-- 
2.43.0


From fdd5beb6219539223a3f7dd0d18b79c2e64d8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 42/64] fix: postgresql: a question mark inside a quoted
 literal or identifier is not a parameter

---
 src/database/postgresql/statement.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index cd61c8d..1152d4c 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -49,9 +49,15 @@ static string convert_query(const string &q)
   ostringstream oss;
 
   int cnt=1;
+  char quote=0;
 
   for (int i=0;i<(int)q.length();i++){
-    if (q[i]=='?') oss<<'$'<<(cnt++);
+    if (quote!=0){
+      if (q[i]==quote) quote=0;
+    }
+    else if (q[i]=='\'' || q[i]=='"') quote=q[i];
+
+    if (q[i]=='?' && quote==0) oss<<'$'<<(cnt++);
     else oss<<q[i];
   }
 
-- 
2.43.0


From 04ee923317c25dea2712f18109668f39a11d9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 43/64] fix: postgresql: destroying a connection that is lost
 must not throw from the destructor

---
 src/database/postgresql/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index 21e4b02..b3a54c2 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -90,7 +90,10 @@ postgresql_connection::postgresql_connection(const string &conninfo)
 
 postgresql_connection::~postgresql_connection()
 {
-  (void)connection::run("ROLLBACK");
+  try{
+    (void)connection::run("ROLLBACK");
+  }catch(...){
+  }
 }
 
 void postgresql_connection::begin_transaction()
-- 
2.43.0


From 210ebd74dbf28b76dee22a8fb9a49f11d96b5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 44/64] fix: postgresql: connect() with an empty value or one
 holding blanks, quotes or backslashes

---
 src/database/postgresql/connection.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index b3a54c2..fc20025 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -127,6 +127,16 @@ connection *connect(const string &conninfo)
   return new postgresql_connection(conninfo);
 }
 
+static string quote_conninfo(const string &s)
+{
+  string ret("'");
+  for (size_t i=0;i<s.length();i++){
+    if (s[i]=='\'' || s[i]=='\\') ret+='\\';
+    ret+=s[i];
+  }
+  return ret+"'";
+}
+
 connection *connect(const string &host,
                     uint16_t port,
                     const string &dbname,
@@ -134,11 +144,11 @@ connection *connect(const string &host,
                     const string &password)
 {
   ostringstream oss;
-  oss<<"host="<<host<<" "
+  oss<<"host="<<quote_conninfo(host)<<" "
      <<"port="<<port<<" "
-     <<"dbname="<<dbname<<" "
-     <<"user="<<user<<" "
-     <<"password="<<password;
+     <<"dbname="<<quote_conninfo(dbname)<<" "
+     <<"user="<<quote_conninfo(user)<<" "
+     <<"password="<<quote_conninfo(password);
   return connect(oss.str());
 }
 
-- 
2.43.0


From 124281864f38234484a53852c10fbc65b0cc80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 45/64] fix: postgresql: read timestamps without a fraction or
 with less than six digits of it

---
 src/database/postgresql/value.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 3afbcaa..34fc57a 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -103,9 +103,19 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_float(lexical_cast<double>(p));
 
   case SQL_TIMESTAMP: {
-    tm t;
-    char *q=strptime(p, "%Y-%m-%d %T.", &t);
-    int usec=atoi(q);
+    tm t={};
+    char *q=strptime(p, "%Y-%m-%d %T", &t);
+    if (!q || (*q!='\0' && *q!='.'))
+      throw database_error("unsupported timestamp: "+string(p, p+len));
+    // trailing zeros of the fraction are not sent
+    int usec=0;
+    if (*q=='.'){
+      int digits=0;
+      for (q++;digits<6 && *q>='0' && *q<='9';digits++)
+        usec=usec*10+(*q++-'0');
+      for (;digits<6;digits++)
+        usec*=10;
+    }
     calendar_time ct(t.tm_year+1900, t.tm_mon+1, t.tm_mday,
                      t.tm_hour, t.tm_min, t.tm_sec, usec);
     return new sql_timestamp(clock_time(ct));
-- 
2.43.0


From 3ea4a36c0fde46df5f7029634c46cf523af7405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 46/64] fix: postgresql: floating-point parameters keep their
 value, NaN and Infinity can be fetched

---
 src/database/postgresql/value.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database/postgresql/value.cpp b/src/database/postgresql/value.cpp
index 34fc57a..d169d90 100644
--- a/src/database/postgresql/value.cpp
+++ b/src/database/postgresql/value.cpp
@@ -100,7 +100,7 @@ sql_value *make_sql_value(char *p, int len, sql_type t)
     return new sql_int64(lexical_cast<int64_t>(p));
 
   case SQL_FLOAT:
-    return new sql_float(lexical_cast<double>(p));
+    return new sql_float(strtod(p, NULL)); // takes NaN and Infinity as well
 
   case SQL_TIMESTAMP: {
     tm t={};
@@ -154,7 +154,7 @@ pfi::lang::shared_ptr<string> sql_to_str(const pfi::lang::shared_ptr<sql_value>&
   }
   case SQL_FLOAT:{
     ostringstream oss;
-    oss<<setiosflags(ios::fixed)<<setprecision(10)<<dynamic_cast<sql_float*>(p.get())->get();
+    oss<<setprecision(17)<<dynamic_cast<sql_float*>(p.get())->get();
     return pfi::lang::shared_ptr<string>(new string(oss.str()));
   }
   case SQL_TIMESTAMP:{
-- 
2.43.0


From bed95d88df9513e7d137bf6e33140324cce4da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 47/64] fix: postgresql: a statement runs its own query when
 another one was prepared after it

---
 src/database/postgresql/connection.cpp   | 16 +++++++++++++++-
 src/database/postgresql/connection_def.h |  7 +++++++
 src/database/postgresql/statement.cpp    |  8 ++++++--
 src/database/postgresql/statement.h      |  2 ++
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/database/postgresql/connection.cpp b/src/database/postgresql/connection.cpp
index fc20025..03305fb 100644
--- a/src/database/postgresql/connection.cpp
+++ b/src/database/postgresql/connection.cpp
@@ -48,7 +48,7 @@ namespace database{
 namespace postgresql{
 
 postgresql_connection_impl::postgresql_connection_impl(const string &conninfo)
-  :conn(NULL)
+  :conn(NULL), session_(0), statements(0)
 {
   if (PQisthreadsafe()!=1)
     throw database_error("PostgreSQL is not threadsafe");
@@ -78,11 +78,25 @@ void postgresql_connection_impl::reconnect()
     return;
 
   PQreset(conn);
+  session_++;
 
   if (PQstatus(conn)!=CONNECTION_OK)
     throw database_error("fail to reconnect");
 }
 
+string postgresql_connection_impl::new_statement()
+{
+  ostringstream oss;
+  oss<<"pfi_"<<(++statements);
+  return oss.str();
+}
+
+void postgresql_connection_impl::free_statement(const string &name, int session)
+{
+  if (session==session_ && PQstatus(conn)==CONNECTION_OK)
+    PQclear(PQexec(conn, ("DEALLOCATE "+name).c_str()));
+}
+
 postgresql_connection::postgresql_connection(const string &conninfo)
   :conn(new postgresql_connection_impl(conninfo))
 {
diff --git a/src/database/postgresql/connection_def.h b/src/database/postgresql/connection_def.h
index 42fd450..62965b9 100644
--- a/src/database/postgresql/connection_def.h
+++ b/src/database/postgresql/connection_def.h
@@ -48,8 +48,15 @@ public:
 
   PGconn *get(){ reconnect(); return conn; }
 
+  // name for a statement to prepare, and its release on the server
+  std::string new_statement();
+  void free_statement(const std::string &name, int session);
+  int session() const { return session_; }
+
 private:
   PGconn *conn;
+  int session_; // prepared statements do not outlive it
+  int statements;
 };
 
 class postgresql_connection : public connection{
diff --git a/src/database/postgresql/statement.cpp b/src/database/postgresql/statement.cpp
index 1152d4c..d5950c7 100644
--- a/src/database/postgresql/statement.cpp
+++ b/src/database/postgresql/statement.cpp
@@ -67,8 +67,11 @@ static string convert_query(const string &q)
 postgresql_statement::postgresql_statement(const pfi::lang::shared_ptr<postgresql_connection_impl>& conn,
                                            const string &query)
   : conn(conn)
+  , name(conn->new_statement())
 {
-  postgresql_result res(PQprepare(conn->get(), "", convert_query(query).c_str(), 0, NULL));
+  PGconn *c=conn->get();
+  session=conn->session();
+  postgresql_result res(PQprepare(c, name.c_str(), convert_query(query).c_str(), 0, NULL));
 
   if (!res.command_ok())
     throw database_error(PQresultErrorMessage(res.get()));
@@ -76,6 +79,7 @@ postgresql_statement::postgresql_statement(const pfi::lang::shared_ptr<postgresq
 
 postgresql_statement::~postgresql_statement()
 {
+  conn->free_statement(name, session);
 }
 
 int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value> > &args)
@@ -97,7 +101,7 @@ int postgresql_statement::execute(const vector<pfi::lang::shared_ptr<sql_value>
     }
   }
 
-  PGresult *r=PQexecPrepared(conn->get(), "", n, &params[0], &param_lens[0], NULL, 0);
+  PGresult *r=PQexecPrepared(conn->get(), name.c_str(), n, &params[0], &param_lens[0], NULL, 0);
   if (r==NULL)
     throw database_error("PQexecPrepared failed");
 
diff --git a/src/database/postgresql/statement.h b/src/database/postgresql/statement.h
index 5755ccf..42d4af7 100644
--- a/src/database/postgresql/statement.h
+++ b/src/database/postgresql/statement.h
@@ -57,6 +57,8 @@ public:
 private:
   pfi::lang::shared_ptr<postgresql_connection_impl> conn;
   pfi::lang::shared_ptr<postgresql_result> res;
+  std::string name;
+  int session;
 };
 
 } // postgresql
-- 
2.43.0


From ef14c8ecc118430334b37654d804ee625f0a4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 48/64] fix: mysql: a null parameter is sent as NULL

---
 src/database/mysql/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index e9ee10e..d482cd5 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -122,7 +122,7 @@ size_t bind_length(const pfi::lang::shared_ptr<sql_value>& p)
 void to_bind(const pfi::lang::shared_ptr<sql_value>& p, MYSQL_BIND &bind)
 {
   if (!p){
-    bind.is_null=NULL;
+    bind.buffer_type=MYSQL_TYPE_NULL;
     return;
   }
 
-- 
2.43.0


From ca1520cb81a178edf1213c2b3fe4e235328a7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 49/64] fix: mysql: VARCHAR columns can be fetched

---
 src/database/mysql/value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/database/mysql/value.cpp b/src/database/mysql/value.cpp
index d482cd5..410914f 100644
--- a/src/database/mysql/value.cpp
+++ b/src/database/mysql/value.cpp
@@ -75,6 +75,7 @@ static sql_value *from_bind_p(MYSQL_BIND &bind)
   }
 
   case MYSQL_TYPE_STRING:
+  case MYSQL_TYPE_VAR_STRING:
   case MYSQL_TYPE_BLOB:{
     char *p=(char*)bind.buffer;
     return new sql_string(string(p, p+*bind.length));
-- 
2.43.0


From 6e5f136d4010c74ee8fbd210d79275e39fcbcc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:02 +0000
Subject: [PATCH 50/64] fix: mysql: begin, commit and rollback report failure
 instead of ignoring it

---
 src/database/mysql/connection.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index ecdb188..c9d31eb 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -109,17 +109,23 @@ mysql_connection::~mysql_connection()
 
 void mysql_connection::begin_transaction()
 {
-  (void)query("BEGIN");
+  if (query("BEGIN") != 0)
+    throw database_error(string("cannot begin transaction: ")+mysql_error(conn->get()));
 }
 
 void mysql_connection::commit()
 {
-  (void)query("COMMIT");
+  // not query(): on a new connection there is nothing left to commit
+  if (conn->get() == NULL)
+    throw connection_error("cannot commit: not connected");
+  if (mysql_query(conn->get(), "COMMIT") != 0)
+    throw database_error(string("cannot commit: ")+mysql_error(conn->get()));
 }
 
 void mysql_connection::rollback()
 {
-  (void)query("ROLLBACK");
+  if (query("ROLLBACK") != 0)
+    throw database_error(string("cannot roll back: ")+mysql_error(conn->get()));
 }
 
 int mysql_connection::query(const string &sql)
-- 
2.43.0


From 75e2a0c3f6eae040b5bf66c360940d6f257b339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:02 +0000
Subject: [PATCH 51/64] fix: mysql: preparing a statement after a failed
 reconnection

---
 src/database/mysql/connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/database/mysql/connection.cpp b/src/database/mysql/connection.cpp
index c9d31eb..067dbb0 100644
--- a/src/database/mysql/connection.cpp
+++ b/src/database/mysql/connection.cpp
@@ -170,6 +170,8 @@ int mysql_connection::run(const string &sql,
 
 statement *mysql_connection::prepare(const string &sql)
 {
+  if (conn->get() == NULL) reconnect();
+
   try {
     return new mysql_statement(conn, sql);
   }
-- 
2.43.0


From fb6a0cfac52c6ad4512768ecccb296784bad6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 52/64] fix: free memory above 2 TB is reported wrong

---
 src/system/sysstat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/sysstat.cpp b/src/system/sysstat.cpp
index 00cc0d9..fa829c0 100644
--- a/src/system/sysstat.cpp
+++ b/src/system/sysstat.cpp
@@ -162,7 +162,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> mem >> kb;
       if (mem != "") {
-        memfree = atoi(mem.c_str());
+        memfree = atoll(mem.c_str());
         if (kb == "kB") {
           memfree *= 1000;
         }
@@ -175,7 +175,7 @@ static uint64_t get_free_memory()
       string kb;
       iss >> type >> cached >> kb;
       if (cached != "") {
-        memcached = atoi(cached.c_str());
+        memcached = atoll(cached.c_str());
         if (kb == "kB") {
           memcached *= 1000;
         }
-- 
2.43.0


From a98e1c6f19bedd124e52257f217cf1607c25a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 53/64] fix: creating a server socket again releases the
 earlier one

---
 src/network/socket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/socket.cpp b/src/network/socket.cpp
index 9715428..da5171b 100644
--- a/src/network/socket.cpp
+++ b/src/network/socket.cpp
@@ -461,6 +461,9 @@ bool server_socket::create(uint16_t port_num, int backlog)
 {
   int res;
 
+  if (connected)
+    close();
+
   NO_INTR(sock, ::socket(PF_INET, SOCK_STREAM, 0));
   if (FAILED(sock)){
     sock=-1;
-- 
2.43.0


From 1ab26d9c24a33305a67b797e3df399f976bfad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 54/64] fix: mprpc arguments that are not sent have a defined
 value

---
 src/network/mprpc/argument.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/network/mprpc/argument.h b/src/network/mprpc/argument.h
index 4fe467c..86bbc11 100644
--- a/src/network/mprpc/argument.h
+++ b/src/network/mprpc/argument.h
@@ -69,7 +69,7 @@ struct argument1 {
     if(sz <= 0) { return; } o.via.array.ptr[0].convert(&a1);
   }
 
-  argument1() { }
+  argument1() : a1() { }
 
   argument1(A1 _a1) : a1(_a1) { }
 
@@ -94,7 +94,7 @@ struct argument2 {
     if(sz <= 1) { return; } o.via.array.ptr[1].convert(&a2);
   }
 
-  argument2() { }
+  argument2() : a1(), a2() { }
 
   argument2(A1 _a1, A2 _a2) : a1(_a1), a2(_a2) { }
 
@@ -122,7 +122,7 @@ struct argument3 {
     if(sz <= 2) { return; } o.via.array.ptr[2].convert(&a3);
   }
 
-  argument3() { }
+  argument3() : a1(), a2(), a3() { }
 
   argument3(A1 _a1, A2 _a2, A3 _a3) : a1(_a1), a2(_a2), a3(_a3) { }
 
@@ -153,7 +153,7 @@ struct argument4 {
     if(sz <= 3) { return; } o.via.array.ptr[3].convert(&a4);
   }
 
-  argument4() { }
+  argument4() : a1(), a2(), a3(), a4() { }
 
   argument4(A1 _a1, A2 _a2, A3 _a3, A4 _a4) : a1(_a1), a2(_a2), a3(_a3), a4(_a4) { }
 
@@ -187,7 +187,7 @@ struct argument5 {
     if(sz <= 4) { return; } o.via.array.ptr[4].convert(&a5);
   }
 
-  argument5() { }
+  argument5() : a1(), a2(), a3(), a4(), a5() { }
 
   argument5(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5) { }
 
@@ -224,7 +224,7 @@ struct argument6 {
     if(sz <= 5) { return; } o.via.array.ptr[5].convert(&a6);
   }
 
-  argument6() { }
+  argument6() : a1(), a2(), a3(), a4(), a5(), a6() { }
 
   argument6(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6) { }
 
@@ -264,7 +264,7 @@ struct argument7 {
     if(sz <= 6) { return; } o.via.array.ptr[6].convert(&a7);
   }
 
-  argument7() { }
+  argument7() : a1(), a2(), a3(), a4(), a5(), a6(), a7() { }
 
   argument7(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7) { }
 
@@ -307,7 +307,7 @@ struct argument8 {
     if(sz <= 7) { return; } o.via.array.ptr[7].convert(&a8);
   }
 
-  argument8() { }
+  argument8() : a1(), a2(), a3(), a4(), a5(), a6(), a7(), a8() { }
 
   argument8(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7, A8 _a8) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7), a8(_a8) { }
 
@@ -353,7 +353,7 @@ struct argument9 {
     if(sz <= 8) { return; } o.via.array.ptr[8].convert(&a9);
   }
 
-  argument9() { }
+  argument9() : a1(), a2(), a3(), a4(), a5(), a6(), a7(), a8(), a9() { }
 
   argument9(A1 _a1, A2 _a2, A3 _a3, A4 _a4, A5 _a5, A6 _a6, A7 _a7, A8 _a8, A9 _a9) : a1(_a1), a2(_a2), a3(_a3), a4(_a4), a5(_a5), a6(_a6), a7(_a7), a8(_a8), a9(_a9) { }
 
-- 
2.43.0


From 6f1d45e0b972a23477fb327cc3eec7647a7a7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 55/64] fix: an mprpc request whose method is not a string does
 not end the server

---
 src/network/mprpc/rpc_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index f5057d3..0eb50ba 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -166,10 +166,12 @@ void rpc_server::process()
         continue;
       }
 
-      rpc_request req(msg);
       try {
+        rpc_request req(msg);
         process_request(req, rs);
       } catch (rpc_error&) {
+      } catch (msgpack::type_error&) {
+        break;
       }
     }
   }
-- 
2.43.0


From 19957c1b0fd54720f74ddaef201aa8e0b1ef7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 56/64] fix: malformed bytes do not end an mprpc server

---
 src/network/mprpc/object_stream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 2638110..6f5d1ac 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -69,11 +69,15 @@ int object_stream::read(msgpack::object* obj, std::unique_ptr<msgpack::zone>* zo
 {
   clock_time start = get_clock_time();
   while(true) {
-    if(unpacker.execute()) {
-      *obj = unpacker.data();
-      zone->reset( unpacker.release_zone() );
-      unpacker.reset();
-      return 1;
+    try {
+      if(unpacker.execute()) {
+        *obj = unpacker.data();
+        zone->reset( unpacker.release_zone() );
+        unpacker.reset();
+        return 1;
+      }
+    } catch (msgpack::unpack_error&) {
+      return -1;
     }
 
     unpacker.reserve_buffer(1024);
-- 
2.43.0


From 49a1cacec8c47cfe1b1d2ffc9b27e5e4c8800ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 57/64] fix: writing to a peer that left does not end the
 process

---
 src/network/mprpc/object_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/mprpc/object_stream.cpp b/src/network/mprpc/object_stream.cpp
index 6f5d1ac..0b864a9 100644
--- a/src/network/mprpc/object_stream.cpp
+++ b/src/network/mprpc/object_stream.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <errno.h>
 #include <sys/types.h>
+#include <sys/socket.h>
 #include <sys/uio.h>
 #include <unistd.h>
 
@@ -106,7 +107,7 @@ int object_stream::write(const void* data, size_t size, double timeout_sec)
   const char* const pend = p + size;
   clock_time start = get_clock_time();
   while(p < pend) {
-    ssize_t rl = ::write(iofd, p, pend-p);
+    ssize_t rl = ::send(iofd, p, pend-p, MSG_NOSIGNAL);
     if(rl <= 0) {
       if(rl == 0) {
         return -1;
-- 
2.43.0


From 3aed8e4175359904a6b7cba6494ebb7d827c4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 58/64] fix: a request cut off before its version must not run
 the method

---
 src/network/rpc/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index bc0261f..4fc9a1d 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -215,7 +215,10 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       }
 
       int req_ver;
-      if (ia >> req_ver && req_ver!=version){
+      // NOTE: a request that is cut off here must not run the method.
+      if (!(ia >> req_ver))
+        break;
+      if (req_ver!=version){
         string msg(string("VersionMismatch ")+lexical_cast<string>(version)+" "+lexical_cast<string>(req_ver));
         oa<<msg;
         oa.flush();
-- 
2.43.0


From aa8349685080b093c15cfaacc307d648f9b761ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:08 +0000
Subject: [PATCH 59/64] fix: refuse a status line without a status code

---
 src/network/http/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/network/http/base.cpp b/src/network/http/base.cpp
index dfc3c1e..5e54436 100644
--- a/src/network/http/base.cpp
+++ b/src/network/http/base.cpp
@@ -529,8 +529,10 @@ response::response(const pfi::lang::shared_ptr<stream_socket>& sock)
     
     istringstream iss(line);
     string ver;
-    iss >> ver >> ws >> code_ >> ws;
+    if (!(iss >> ver >> code_))
+      throw http_exception("invalid status-line");
 
+    iss >> ws;
     getline(iss, reason_);
 
     for (size_t i = 0; i < ver.length(); i++)
-- 
2.43.0


From 4e1d1086b564efe9ba69832cf09fc2aceb0c699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:46 +0000
Subject: [PATCH 60/64] fix: mprpc: answer a request whose function throws an
 rpc_error

---
 src/network/mprpc/invoker.h      | 9 ++++++++-
 src/network/mprpc/rpc_server.cpp | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/network/mprpc/invoker.h b/src/network/mprpc/invoker.h
index 53a0480..e45b7df 100644
--- a/src/network/mprpc/invoker.h
+++ b/src/network/mprpc/invoker.h
@@ -47,30 +47,37 @@ namespace mprpc {
 class responder {
 public:
   responder(uint32_t msgid, const pfi::lang::shared_ptr<rpc_stream>& rs) :
-    msgid(msgid), rs(rs) { }
+    msgid(msgid), rs(rs), answered(false) { }
 
 public:
   template <typename R>
   bool send_result(const R& r)
   {
+    answered = true;
     return rs->send_response(msgid, r, msgpack::type::nil());
   }
 
   template <typename E>
   bool send_error(const E& e)
   {
+    answered = true;
     return rs->send_response(msgid, msgpack::type::nil(), e);
   }
 
   template <typename E, typename R>
   bool send_error(const E& e, const R& r)
   {
+    answered = true;
     return rs->send_response(msgid, r, e);
   }
 
+  // whether an answer has been sent, or sending one was tried
+  bool is_answered() const { return answered; }
+
 private:
   uint32_t msgid;
   pfi::lang::shared_ptr<rpc_stream> rs;
+  bool answered;
 };
 
 
diff --git a/src/network/mprpc/rpc_server.cpp b/src/network/mprpc/rpc_server.cpp
index 0eb50ba..9b5730d 100644
--- a/src/network/mprpc/rpc_server.cpp
+++ b/src/network/mprpc/rpc_server.cpp
@@ -197,7 +197,11 @@ void rpc_server::process_request(rpc_request& req, const pfi::lang::shared_ptr<r
 
   try {
     fun->second->invoke(req, res);
-  } catch (rpc_error&) {
+  } catch (rpc_error& e) {
+    // thrown by the function itself, unless an answer has already been tried
+    if(!res.is_answered()) {
+      res.send_error(std::string(e.what()));
+    }
   } catch (std::exception& e) {
     res.send_error(std::string(e.what()));
   }
-- 
2.43.0


From 49ceba4209bc65fd6c3a941c8f9ae5cb54e7e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:27 +0000
Subject: [PATCH 61/64] fix: genrpc: name the library's shared_ptr, bind and
 function, ambiguous with std's since C++11

---
 src/network/rpc/reflect.h |  2 +-
 tools/genrpc/gen_hs.h     | 12 ++++++------
 tools/genrpc/gen_php.h    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/network/rpc/reflect.h b/src/network/rpc/reflect.h
index 3bce6ba..2d52226 100644
--- a/src/network/rpc/reflect.h
+++ b/src/network/rpc/reflect.h
@@ -202,7 +202,7 @@ protected:
   class name : virtual public reflect_base{ \
   public: \
   name(){ \
-    mem[#name]=pfi::network::rpc::extract(function<ftype>()); \
+    mem[#name]=pfi::network::rpc::extract(pfi::lang::function<ftype>()); \
   } \
   }; \
   }
diff --git a/tools/genrpc/gen_hs.h b/tools/genrpc/gen_hs.h
index 8ab7214..361dc2a 100644
--- a/tools/genrpc/gen_hs.h
+++ b/tools/genrpc/gen_hs.h
@@ -40,14 +40,14 @@ private:
 
     map<string, type_rep*> types;
 
-    map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > > &mems=ref.members();
+    map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > > &mems=ref.members();
 
     // collecting classes
-    for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+    for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
          p!=mems.end(); p++){
-      p->second.first->traverse(bind(&haskell_generator::add_type, this, &types, _1));
+      p->second.first->traverse(pfi::lang::bind(&haskell_generator::add_type, this, &types, pfi::lang::_1));
       for (int i=0; i<(int)p->second.second.size(); i++)
-        p->second.second[i]->traverse(bind(&haskell_generator::add_type, this, &types, _1));
+        p->second.second[i]->traverse(pfi::lang::bind(&haskell_generator::add_type, this, &types, pfi::lang::_1));
     }
 
     // output header
@@ -62,7 +62,7 @@ private:
       os<<"  "<<class_name<<"(..),"<<endl;
     }
 
-    for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+    for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
          p!=mems.end(); p++){
       const string &method_name=p->first;
       os<<"  call_"<<method_name<<","<<endl;
@@ -123,7 +123,7 @@ private:
 
     // generate rpc client
 
-    for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+    for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
          p!=mems.end(); p++){
       const string &method_name=p->first;
 
diff --git a/tools/genrpc/gen_php.h b/tools/genrpc/gen_php.h
index 60dc09f..af06625 100644
--- a/tools/genrpc/gen_php.h
+++ b/tools/genrpc/gen_php.h
@@ -18,7 +18,7 @@ using namespace pfi::network::rpc;
 
 #define LIB_PATH "pfi_rpc.php"
 
-typedef shared_ptr<type_rep> type_rep_p;
+typedef pfi::lang::shared_ptr<type_rep> type_rep_p;
 typedef pair<type_rep_p, vector<type_rep_p> > function_type;
 
 class php_generator{
@@ -46,9 +46,9 @@ private:
 
       for (map<string, function_type>::iterator p=mems.begin();
            p!=mems.end(); p++){
-        p->second.first->traverse(bind(&php_generator::add_type, this, &types, _1));
+        p->second.first->traverse(pfi::lang::bind(&php_generator::add_type, this, &types, pfi::lang::_1));
         for (int i=0; i<(int)p->second.second.size(); i++)
-          p->second.second[i]->traverse(bind(&php_generator::add_type, this, &types, _1));
+          p->second.second[i]->traverse(pfi::lang::bind(&php_generator::add_type, this, &types, pfi::lang::_1));
       }
     }
 
@@ -99,7 +99,7 @@ private:
       os<<"  var $int_typeinfo;"<<endl;
       os<<"  var $string_typeinfo;"<<endl;
       
-      for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+      for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
            p!=mems.end(); p++){
         const string &method_name=p->first;
         
@@ -113,7 +113,7 @@ private:
       os<<"    $this->int_typeinfo=new int_type(false, 4);"<<endl;
       os<<"    $this->string_typeinfo=new string_type();"<<endl;
       
-      for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+      for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
            p!=mems.end(); p++){
         const string &method_name=p->first;
         
@@ -148,7 +148,7 @@ private:
       os<<"      throw new Exception(\"result code is not OK: $code\");"<<endl;
       os<<"  }"<<endl;
       
-      for (map<string, pair<shared_ptr<type_rep>, vector<shared_ptr<type_rep> > > >::iterator p=mems.begin();
+      for (map<string, pair<pfi::lang::shared_ptr<type_rep>, vector<pfi::lang::shared_ptr<type_rep> > > >::iterator p=mems.begin();
            p!=mems.end(); p++){
         const string &method_name=p->first;
         
-- 
2.43.0


From 02cfad5aefe118ba86ac491c9037de275f819b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:27 +0000
Subject: [PATCH 62/64] fix: genrpc: clients announce the version of their
 service, not version 1

---
 tools/genrpc/gen_hs.h  | 2 +-
 tools/genrpc/gen_php.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/genrpc/gen_hs.h b/tools/genrpc/gen_hs.h
index 361dc2a..c963ba2 100644
--- a/tools/genrpc/gen_hs.h
+++ b/tools/genrpc/gen_hs.h
@@ -142,7 +142,7 @@ private:
         os<<" a"<<i;
       os<<" ="<<endl;
 
-      os<<"  call c \""<<method_name<<"\" 1 [";
+      os<<"  call c \""<<method_name<<"\" ("<<ref.get_version()<<") [";
       for (int i=0; i<(int)p->second.second.size(); i++){
         if (i!=0) os<<",";
         os<<" RPCValue a"<<i;
diff --git a/tools/genrpc/gen_php.h b/tools/genrpc/gen_php.h
index af06625..8dfb240 100644
--- a/tools/genrpc/gen_php.h
+++ b/tools/genrpc/gen_php.h
@@ -161,7 +161,7 @@ private:
         
         os<<"    $this->ping_pong();"<<endl;
         os<<"    $this->string_typeinfo->write($this->buf, \""<<method_name<<"\");"<<endl;
-        os<<"    $this->int_typeinfo->write($this->buf, 1);"<<endl;
+        os<<"    $this->int_typeinfo->write($this->buf, "<<ref.get_version()<<");"<<endl;
         for (int i=0; i<(int)p->second.second.size(); i++){
           os<<"    $this->"<<method_name<<"_a"<<i<<"_typeinfo->write($this->buf, $a"<<i<<");"<<endl;
         }
-- 
2.43.0


From 52af510356978acabbb9aeabb778e7caf8a474e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:27 +0000
Subject: [PATCH 63/64] fix: genrpc: the PHP library reads on until all bytes
 have arrived

---
 tools/genrpc/pfi_rpc.php | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/genrpc/pfi_rpc.php b/tools/genrpc/pfi_rpc.php
index 68e380b..1e98b68 100644
--- a/tools/genrpc/pfi_rpc.php
+++ b/tools/genrpc/pfi_rpc.php
@@ -92,7 +92,14 @@ class buffer{
   }
 
   public function read($n){
-    return fread($this->f, $n);
+    $data="";
+    while (strlen($data)<$n){
+      $part=fread($this->f, $n-strlen($data));
+      if ($part===FALSE || $part==="")
+        throw new Exception("connection closed");
+      $data.=$part;
+    }
+    return $data;
   }
 
   public function write($str, $n){
-- 
2.43.0


From 4b8497ae9eed03336a641b83d659656354758035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:47 +0000
Subject: [PATCH 64/64] fix: rpc: answer a request whose function throws, and
 keep serving

---
 src/network/rpc/base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/network/rpc/base.cpp b/src/network/rpc/base.cpp
index 4fc9a1d..94407d4 100644
--- a/src/network/rpc/base.cpp
+++ b/src/network/rpc/base.cpp
@@ -230,7 +230,16 @@ void rpc_server::process(const pfi::lang::shared_ptr<server_socket>& ssock)
       try{
         funcs[name]->invoke(ia,oa);
       }
-      catch(const rpc_error &){
+      catch(const std::exception &e){
+        // cannot recv or send on this connection
+        if (!ss)
+          break;
+        // thrown by the method itself
+        string msg(string("Error: ")+e.what());
+        oa<<msg;
+        oa.flush();
+        sock->close_gracefully();
+        break;
       }
     }
   }
-- 
2.43.0

