From 47266cc0f4849e7d67745350d2ee3b8418d38a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 01/48] fix: StreamConsumer without configuration reads an
 uninitialised pointer

---
 src/streamConsumer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..5ae9860 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -12,7 +12,7 @@
 #include "streamConsumer.hh"
 #include "unicode.hpp"
 
-StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr)
+StreamConsumer::StreamConsumer(std::istream &s): stream(s), root(nullptr), params(nullptr)
 { }
 
 StreamConsumer::~StreamConsumer()
@@ -231,7 +231,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
             read++;
             rawInput += c;
         }
-        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && params->isStrict()))
+        else if ((buf.str() != "true" && buf.str() != "false") || (buf.str() != rawInput && (!params || params->isStrict())))
             throw JsonFormatException(stream.tellg(), history);
         else if (buf.str() == "true")
         {
@@ -326,7 +326,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
     }
     for (int i =1; i < 4; ++i)
         _bufLower += std::tolower(_buf[i]);
-    if (_bufLower == "null" && (_bufLower == buf.str() || !params->isStrict()))
+    if (_bufLower == "null" && (_bufLower == buf.str() || (params && !params->isStrict())))
     {
         if (buf.str() != "null")
             warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-- 
2.43.0


From 47b64f6d5c92b89ff7c8eeadb1a98f9534b63e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 02/48] fix: WrappedBuffer starts with an uninitialised written
 count

---
 include/wrappedBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..939ce35 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
-- 
2.43.0


From 4d42749333b92fc174f98927b05a603453d3a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 03/48] fix: WrappedBuffer drops too many items when wrapping
 after removals

---
 include/wrappedBuffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 939ce35..4690d48 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -85,7 +85,8 @@ void WrappedBuffer<T, SIZE>::put(T item)
     written++;
     if (curW +1 == SIZE)
     {
-        curR = 1;
+        if (curR == 0 || curR == SIZE)
+            curR = 1;
         curW = 0;
         buffer[0] = item;
     }
-- 
2.43.0


From ad6332b822be52012984aecdb70de34ca3a2301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 04/48] fix: WrappedBuffer bulk insertion longer than the
 capacity keeps the wrong items

---
 include/wrappedBuffer.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 4690d48..28189f6 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -109,16 +109,15 @@ void WrappedBuffer<T, SIZE>::put(T item)
 template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::put(T items[], unsigned int count)
 {
-    unsigned int newSize = size() + count;
-
     if (!count)
         return;
     written += count;
-    while (count > SIZE)
+    if (count > SIZE)
     {
-        count -= SIZE;
-        items += SIZE;
+        items += count - SIZE;
+        count = SIZE;
     }
+    const unsigned int newSize = size() + count;
     if (curW + count >= SIZE)
     {
         if (curW +1 != SIZE)
-- 
2.43.0


From db1a1d698ac344659a54afd74743042159a5f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 05/48] fix: removing from an empty WrappedBuffer wraps its
 written count below zero

---
 include/wrappedBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 28189f6..922b70a 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -143,10 +143,10 @@ template<typename T, int SIZE>
 void WrappedBuffer<T, SIZE>::pop_back()
 {
     unsigned int oldSize = size();
-    written--;
     if (oldSize == 0)
         return;
-    else if (oldSize == 1)
+    written--;
+    if (oldSize == 1)
     {
         curW = -1;
         curR = 0;
-- 
2.43.0


From 0b5e381f8558ce14a64b07f267155cedad9dfdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 06/48] fix: LinearHistory bulk insertion reads past its input
 and drops line prefixes

---
 src/linearHistory.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..797ca33 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -31,29 +31,7 @@ void LinearHistory::put(char item)
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
 }
 
-- 
2.43.0


From a9806f56d92ddf240db411af3592a0fbe0b0e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 07/48] fix: pushing back a new-line removes the wrong char
 from the history

---
 include/linearHistory.hh | 5 +++++
 src/linearHistory.cpp    | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..16104eb 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -27,6 +27,11 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
         void put(char item);
         void put(char item[], unsigned int count);
 
+        /**
+         * Remove last inserted char, which may be a new-line
+        **/
+        void pop_back();
+
     private:
         /**
          * True if new line found, and should reset at new put
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 797ca33..3d973d8 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -35,3 +35,11 @@ void LinearHistory::put(char items[], unsigned int count)
         put(items[i]);
 }
 
+void LinearHistory::pop_back()
+{
+    if (willReset)
+        willReset = false;
+    else
+        WrappedBuffer<char, ERROR_HISTORY_LEN>::pop_back();
+}
+
-- 
2.43.0


From 57da11fc5da239d931a904abd79c351775798484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 08/48] fix: error messages are built with pointer arithmetic

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From 026c921b74eb5ce21a7e565bccac3c3faf24ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 09/48] fix: objects accept any separator or no end, and crash
 on a missing value

---
 src/streamConsumer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 5ae9860..74d1e8a 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -92,10 +92,13 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
-        keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (consumeToken(result, buf) != nullptr || (buf.str() != "," && buf.str() != "}"))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From 32a5fa5deb5e9c377ed3bb3600b4089c44f420ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 10/48] fix: malformed or too large numbers are accepted or
 crash

---
 src/streamConsumer.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 74d1e8a..c4eec52 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -6,7 +6,9 @@
 
 #include <iostream>
 #include <sstream>
+#include <cmath>
 #include <codecvt>
+#include <cstdlib>
 #include <locale>
 #include "jsonElement.hh"
 #include "streamConsumer.hh"
@@ -264,7 +266,7 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
-    bool numberIsDouble = false;
+    bool numberIsDouble = firstChar == '.';
 
     buf.str("");
     buf.clear();
@@ -286,22 +288,30 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         {
             history.pop_back();
             stream.unget();
+            const std::string number = buf.str();
             if (numberIsDouble)
             {
-                try {
-                    return new JSonPrimitive<double>(parent, atof(buf.str().c_str()));
-                } catch (std::runtime_error &e)
-                {
+                char *end = nullptr;
+                const double value = strtod(number.c_str(), &end);
+
+                if (*end || std::isinf(value))
                     throw JsonFormatException(stream.tellg(), history);
-                }
+                return new JSonPrimitive<double>(parent, value);
             }
             try
             {
-                return new JSonPrimitive<int>(parent, std::stoi(buf.str()));
+                try
+                {
+                    return new JSonPrimitive<int>(parent, std::stoi(number));
+                }
+                catch(std::out_of_range &e)
+                {
+                    return new JSonPrimitive<long long>(parent, std::stol(number));
+                }
             }
-            catch(std::out_of_range e)
+            catch(std::logic_error &e)
             {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                throw JsonFormatException(stream.tellg(), history);
             }
         }
     }
-- 
2.43.0


From d10be916a790693f1f6c3a8a69d148a11fb29f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 11/48] fix: numbers with an exponent lose it

---
 src/streamConsumer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index c4eec52..1380e93 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -267,6 +267,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
     bool numberIsDouble = firstChar == '.';
+    bool hasExponent = false;
+    char lastChar = firstChar;
 
     buf.str("");
     buf.clear();
@@ -284,6 +286,13 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             numberIsDouble = true;
             buf.write(&c, 1);
         }
+        else if ((c == 'e' || c == 'E') && !hasExponent)
+        {
+            numberIsDouble = hasExponent = true;
+            buf.write(&c, 1);
+        }
+        else if ((c == '+' || c == '-') && (lastChar == 'e' || lastChar == 'E'))
+            buf.write(&c, 1);
         else
         {
             history.pop_back();
@@ -314,6 +323,7 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
                 throw JsonFormatException(stream.tellg(), history);
             }
         }
+        lastChar = c;
     }
     buf.str("");
     buf.clear();
-- 
2.43.0


From 716a2ae41e073e5c520dbba42654ef02f9a637cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 12/48] fix: surrogate pairs in unicode escapes crash

---
 include/streamConsumer.hh | 10 ++++++++++
 src/streamConsumer.cpp    | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/include/streamConsumer.hh b/include/streamConsumer.hh
index 24f3cd6..3d9ba5b 100644
--- a/include/streamConsumer.hh
+++ b/include/streamConsumer.hh
@@ -86,6 +86,16 @@ class StreamConsumer
         **/
         static void appendUnicode(const char [4], std::stringstream &);
 
+        /**
+         * check whether unicode value is the first half of a surrogate pair
+        **/
+        static bool isHighSurrogate(const char [4]);
+
+        /**
+         * compute value of a surrogate pair (XXXX then \uXXXX) and append it to buffer
+        **/
+        static void appendSurrogates(const char high[4], const char low[6], std::stringstream &);
+
         /**
          * input stream
         **/
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 1380e93..7228acb 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -190,7 +190,18 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
             if (gcount != 4)
                 return false;
             try {
-                appendUnicode(unicodeBuf, buf);
+                if (isHighSurrogate(unicodeBuf))
+                {
+                    char lowBuf[6];
+                    stream.read(lowBuf, 6);
+                    gcount = stream.gcount();
+                    history.put(lowBuf, gcount);
+                    if (gcount != 6)
+                        return false;
+                    appendSurrogates(unicodeBuf, lowBuf, buf);
+                }
+                else
+                    appendUnicode(unicodeBuf, buf);
             }
             catch (std::invalid_argument &e)
             {
@@ -392,11 +403,32 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
     unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+    if (uni >= 0xD800 && uni <= 0xDFFF)
+        throw std::invalid_argument("unpaired surrogate");
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
 }
 
+bool StreamConsumer::isHighSurrogate(const char unicode[4])
+{
+    unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+    return uni >= 0xD800 && uni <= 0xDBFF;
+}
+
+void StreamConsumer::appendSurrogates(const char high[4], const char low[6], std::stringstream &buf)
+{
+    if (low[0] != '\\' || low[1] != 'u')
+        throw std::invalid_argument("unpaired surrogate");
+    unsigned int hi = hexbyte<unsigned short>(high, 4);
+    unsigned int lo = hexbyte<unsigned short>(low +2, 4);
+    if (lo < 0xDC00 || lo > 0xDFFF)
+        throw std::invalid_argument("unpaired surrogate");
+    std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
+    std::string unichar = converter.to_bytes(0x10000 + (hi - 0xD800) * 0x400 + (lo - 0xDC00));
+    buf.write(unichar.c_str(), unichar.size());
+}
+
 std::string StreamConsumer::extractUnicode(const char *buf)
 {
     std::stringstream result;
-- 
2.43.0


From 58dec73397d88b72da4a4555a35cb150faa989ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 13/48] fix: extractUnicode drops the char after an escape and
 reads past the end

---
 src/streamConsumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 7228acb..ac12d96 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -438,7 +438,7 @@ std::string StreamConsumer::extractUnicode(const char *buf)
         if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
         {
             appendUnicode(buf +2, result);
-            buf += 6;
+            buf += 5;
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From 6364a7e9e805e1400b32d4ed1550b4d9c397cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 14/48] fix: an invalid unicode escape in a search pattern
 crashes

---
 src/streamConsumer.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index ac12d96..058c809 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -437,8 +437,22 @@ std::string StreamConsumer::extractUnicode(const char *buf)
     {
         if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
         {
-            appendUnicode(buf +2, result);
-            buf += 5;
+            try {
+                if (isHighSurrogate(buf +2) && strnlen(buf +6, 6) == 6)
+                {
+                    appendSurrogates(buf +2, buf +6, result);
+                    buf += 11;
+                }
+                else
+                {
+                    appendUnicode(buf +2, result);
+                    buf += 5;
+                }
+            }
+            catch (std::invalid_argument &e)
+            {
+                result.write(buf, 1); // not an escape, keep as it is
+            }
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From 269826f4a757c1415de8caa9d0dc35fe9e341443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 15/48] fix: a truncated null adds characters never read to the
 error excerpt

---
 src/streamConsumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 058c809..bdb6d4f 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -351,7 +351,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
-- 
2.43.0


From e3c8ac492ed992520fce15795307648e87436764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 16/48] fix: end of input adds a character never read to the
 error position

---
 src/streamConsumer.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index bdb6d4f..2b71b66 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -149,6 +149,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         if (!escaped)
@@ -237,7 +239,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     {
         const char c = stream.get();
         const char cLower = std::tolower(c);
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
         {
@@ -253,16 +256,22 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
+            if (stream.good())
+            {
+                history.pop_back();
+                stream.unget();
+            }
             return new JSonPrimitive<bool>(parent, true);
         }
         else if (buf.str() == "false")
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
-            stream.unget();
+            if (stream.good())
+            {
+                history.pop_back();
+                stream.unget();
+            }
             return new JSonPrimitive<bool>(parent, false);
         }
         else if (ignoreChar(c))
@@ -288,7 +297,8 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (c >= '0' && c <= '9')
             buf.write(&c, 1);
@@ -306,8 +316,11 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             buf.write(&c, 1);
         else
         {
-            history.pop_back();
-            stream.unget();
+            if (stream.good())
+            {
+                history.pop_back();
+                stream.unget();
+            }
             const std::string number = buf.str();
             if (numberIsDouble)
             {
@@ -374,6 +387,8 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
     while (stream.good())
     {
         char c = stream.get();
+        if (!stream.good())
+            break;
         history.put(c);
 
         //!InString, !inbool
-- 
2.43.0


From d54f56d6333a481dbf2b88ec1fcbbd99d10bed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 17/48] fix: SearchPattern type filter is uninitialised

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..dd0a86a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
-- 
2.43.0


From 7ae1de165776e5dc9ec1e4fb791aaad73982f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 18/48] fix: case insensitive search changes the meaning of
 regular expressions

---
 src/searchPattern.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index dd0a86a..b4f8f6a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -68,6 +65,8 @@ void SearchPattern::evalFlags(const char *s)
             typeFlag = SearchPattern::TYPE_OBJKEY;
         s++;
     }
+    if (flags & SearchPattern::FLAG_CASE && !(flags & SearchPattern::FLAG_REGEX))
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
-- 
2.43.0


From 462774b1602ffae499b2ff5715939d016697dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 19/48] fix: searching an invalid regular expression crashes

---
 src/searchPattern.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index b4f8f6a..a079ca4 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -72,7 +72,14 @@ void SearchPattern::evalFlags(const char *s)
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
         if (flags & FLAG_CASE)
             opts |= std::regex_constants::icase;
-        regex = new std::regex(pattern, opts);
+        try {
+            regex = new std::regex(pattern, opts);
+        }
+        catch (std::regex_error &e)
+        {
+            flags &= ~SearchPattern::FLAG_REGEX;
+            pattern.clear();
+        }
     }
 }
 
-- 
2.43.0


From c92e520a229ebb509eb9b81f971d4873a17b725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 20/48] fix: whole word search misses the first and last words

---
 src/searchPattern.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index a079ca4..5509539 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -118,8 +118,9 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
         return false;
     if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())
     {
-        std::string pattern = " " +this->pattern +' ';
-        return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        const std::string padded = " " +str +' ';
+        const std::string pattern = " " +this->pattern +' ';
+        return std::search(padded.begin(), padded.end(), pattern.begin(), pattern.end(), *this) != padded.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From f9842c018053e51c14f9ce66ce2b7ca8335b81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 21/48] fix: displayed width overflows its buffer or reads
 uninitialised memory

---
 src/jsonElement.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..ef02a70 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -4,6 +4,7 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <cstdlib>
 #include "jsonElement.hh"
 #include "jsonContainer.hh"
 #include "jsonObjectEntry.hh"
@@ -28,9 +29,8 @@ size_t JSonElement::lazystrlen()
     const std::string buf = stringify();
     if (!buf.size())
         return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return _strlen = (len == (size_t) -1) ? buf.size() : len;
 }
 
 size_t JSonElement::strlen() const
@@ -40,9 +40,8 @@ size_t JSonElement::strlen() const
     const std::string buf = stringify();
     if (!buf.size())
         return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return (len == (size_t) -1) ? buf.size() : len;
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From 268137aee8efae4e6755f5a4bbf552d855db52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 22/48] fix: container brackets are printed from a destroyed
 string

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..ac37b87 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -43,7 +43,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From 049686ba237aca2ffd246bd8ed71c5cd6c1be6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 23/48] fix: floating numbers are printed with at most six
 decimals

---
 src/jsonPrimitive.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jsonPrimitive.cpp b/src/jsonPrimitive.cpp
index bd02733..376a8c8 100644
--- a/src/jsonPrimitive.cpp
+++ b/src/jsonPrimitive.cpp
@@ -4,6 +4,8 @@
  * Author: isundil <isundill@gmail.com>
 **/
 
+#include <cstdio>
+#include <cstdlib>
 #include "jsonPrimitive.hh"
 
 AJSonPrimitive::AJSonPrimitive(JSonElement *p): JSonElement(p)
@@ -30,7 +32,13 @@ template<> std::string JSonPrimitive<Null>::toString() const
 
 template<> std::string JSonPrimitive<double>::toString() const
 {
-    return std::to_string(value);
+    const std::string result = std::to_string(value);
+    char exact[32];
+
+    if (strtod(result.c_str(), nullptr) == value)
+        return result;
+    snprintf(exact, sizeof(exact), "%.17g", value); // more decimals needed
+    return exact;
 }
 
 template<> std::string JSonPrimitive<long long>::toString() const
-- 
2.43.0


From 17bcb6a9cc6ea1d5f862a141e38561b107aceb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 24/48] fix: quotes, reverse solidus and control characters are
 printed unescaped

---
 include/simpleOutput.hh |  6 ++++++
 src/simpleOutput.cpp    | 24 ++++++++++++++++++++++--
 src/streamConsumer.cpp  |  6 +++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/simpleOutput.hh b/include/simpleOutput.hh
index 4d0a99d..7f03c9d 100644
--- a/include/simpleOutput.hh
+++ b/include/simpleOutput.hh
@@ -15,6 +15,12 @@ class SimpleOutput
 
         std::string getIndent() const;
 
+        /**
+         * escape characters that cannot appear as they are in a json string
+         * (reverse solidus are kept escaped by parser)
+        **/
+        static std::string escape(const std::string &);
+
         inline void writeObjectEntry(const JSonObjectEntry *, bool);
         inline void writePrimitive(const AJSonPrimitive *, bool);
         inline void writeContainer(const JSonContainer *, bool);
diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index ac37b87..32ef9e1 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -12,7 +12,7 @@ SimpleOutput::SimpleOutput(std::ostream &output, const Params &p): out(output),
 
 void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependComma)
 {
-    out << getIndent() << (prependComma ? ",\"" : "\"") << item->stringify() << "\":";
+    out << getIndent() << (prependComma ? ",\"" : "\"") << escape(item->stringify()) << "\":";
 
     if (dynamic_cast<const JSonContainer *> (**item))
     {
@@ -33,7 +33,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
     out << getIndent() << (prependComma ? "," : "");
 
     if (dynamic_cast<const JSonPrimitive<std::string>*> (item))
-        out << "\"" << item->stringify() << "\"";
+        out << "\"" << escape(item->stringify()) << "\"";
     else
         out << item->stringify();
     if (!params.compressed())
@@ -74,6 +74,26 @@ void SimpleOutput::write(const JSonElement *item, bool prependComma)
         writePrimitive((const AJSonPrimitive *) item, prependComma);
 }
 
+std::string SimpleOutput::escape(const std::string &str)
+{
+    std::string result;
+
+    for (char c: str)
+    {
+        if (c == '"')
+            result += "\\\"";
+        else if (c >= 0 && c < ' ')
+        {
+            result += "\\u00";
+            result += (c < 16) ? '0' : '1';
+            result += "0123456789abcdef"[c % 16];
+        }
+        else
+            result += c;
+    }
+    return result;
+}
+
 std::string SimpleOutput::getIndent() const
 {
     if (params.compressed())
diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2b71b66..cd4de8e 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -177,8 +177,10 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
 
 bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
 {
-    if (c == '\\' || c == '"' || c == '/')
+    if (c == '"' || c == '/')
         buf.write(&c, 1);
+    else if (c == '\\')
+        buf.write("\\\\", 2);
     else if (c == 'u')
     {
         if (params && params->isIgnoringUnicode())
@@ -202,6 +204,8 @@ bool StreamConsumer::consumeEscapedChar(char c, std::stringstream &buf)
                         return false;
                     appendSurrogates(unicodeBuf, lowBuf, buf);
                 }
+                else if (hexbyte<unsigned short>(unicodeBuf, 4) == '\\')
+                    buf.write("\\\\", 2);
                 else
                     appendUnicode(unicodeBuf, buf);
             }
-- 
2.43.0


From 80e841a5ca883c9951e1314930db8b2de07e2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 25/48] fix: reporting an error with an empty excerpt crashes

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
-- 
2.43.0


From 86edcc741f6d1eba6c1e3cd82c9d1810e7a67557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 26/48] fix: searched text is not terminated

---
 src/curseOutput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..4de3aab 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -233,8 +233,9 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 
     {
         const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
+        char bytesString[size * sizeof(wchar_t) +1];
+        const size_t len = wcstombs(&bytesString[0], buffer.c_str(), size * sizeof(wchar_t));
+        bytesString[len == (size_t) -1 ? 0 : len] = '\0';
         std::string str;
         if (params.isIgnoringUnicode())
             str = bytesString;
-- 
2.43.0


From 3730a8c42eeb8940ca70eedf7270ca375c5c5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 27/48] fix: search results and collapsed items outlive their
 document

---
 src/curseSimpleOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..0eed47d 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -27,6 +27,8 @@ CurseSimpleOutput::~CurseSimpleOutput()
 void CurseSimpleOutput::run(JSonElement *root, const std::string &i)
 {
     scrollTop = 0;
+    search_result.clear();
+    collapsed.clear();
     selection = data = root;
     inputName = i;
     loop(nullptr);
-- 
2.43.0


From b280a54271d65feb17cc28c926e0abc795ed84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 28/48] fix: comparing empty containers crashes and different
 ones are said equal

---
 include/levenshteinMatrice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..99698e0 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -113,8 +113,8 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
-            if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
+            result->levenRelativeDist = (n || m) ? 1.f -((float) matrice[n][m] / std::max(n, m)) : 1.f;
+            if (n && m && result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
             return result;
-- 
2.43.0


From 78afdc7fc117f8bda639fd5cb5b2cb8bc7554e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 29/48] fix: distance between containers overflows its counter

---
 include/levenshteinMatrice.hpp | 2 +-
 src/levenshtein.cpp            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 99698e0..42d1ac1 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -97,7 +97,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     LevenshteinMatrice_base *_subMatrice = matriceBuilder.build(*a, *b);
                     if (_subMatrice != nullptr)
                     {
-                        const T chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
+                        const size_t chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
 
                         if (chCost <= matrice[i -1][j] +1 &&
                                 chCost <= matrice[i][j -1] +1)
diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..25853ca 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -61,9 +61,9 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
 
         LevenshteinMatrice *result = nullptr;
 
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
+        if (lenA +lenB < UCHAR_MAX)
             result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
+        else if (lenA +lenB < USHRT_MAX)
             result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
         else
             result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
-- 
2.43.0


From 0f3cb58ad32b21e94f39f644ea3e437b3ea3a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 30/48] fix: external diff inputs share or overwrite temporary
 files

---
 src/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..ef289a5 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -75,8 +75,9 @@ std::ofstream getOutputFile(const std::string iname, std::string &outfile)
         ss = std::stringstream("");
         ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
         outfile = ss.str();
-        fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+        if (access(outfile.c_str(), F_OK) != 0)
+            fout.open(outfile);
+    } while (!fout.is_open() && ++i < 1000);
     return fout;
 }
 
@@ -97,6 +98,11 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         if (!stream)
             return inputsFilenames;
         std::ofstream fout = getOutputFile(input.first, fname);
+        if (!fout.is_open())
+        {
+            delete stream;
+            return inputsFilenames;
+        }
         inputsFilenames.push_back(fname);
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
-- 
2.43.0


From facec087ae3be8d9fee1211b551b3ed51f301078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 31/48] fix: an external diff command that cannot run or is
 killed hangs

---
 src/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index ef289a5..3d326bf 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -120,11 +120,14 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
+    {
         execvp(*av, av);
+        _exit(EXIT_FAILURE);
+    }
     // Wait for child to terminate
     do {
         waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+    } while (!WIFEXITED(status) && !WIFSIGNALED(status));
     return inputsFilenames;
 }
 
-- 
2.43.0


From 771c4f0da12be62ae97e9a3c9935b99986c730f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 32/48] fix: a member whose key and value both match is listed
 twice by a search

---
 src/curseSimpleOutput.cpp | 8 ++++----
 src/curseSplitOutput.cpp  | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 0eed47d..0ac24e3 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -473,10 +473,10 @@ unsigned int CurseSimpleOutput::search(const SearchPattern &search_pattern, cons
     {
         if (current && current->match(search_pattern))
         {
-            if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                search_result.push_back(current->getParent());
-            else
-                search_result.push_back(current);
+            const bool isValue = current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent());
+            const JSonElement *found = isValue ? current->getParent() : current;
+            if (search_result.empty() || search_result.back() != found) // both key and value may match
+                search_result.push_back(found);
             result++;
         }
         if (objEntry)
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..ee87a5f 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -332,10 +332,11 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
     {
         if (current && current->match(searchPattern))
         {
-            if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
-            else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+            std::list<const JSonElement*> &results = subWindows.at(selectedWin).searchResults;
+            const bool isValue = current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent());
+            const JSonElement *found = isValue ? current->getParent() : current;
+            if (results.empty() || results.back() != found) // both key and value may match
+                results.push_back(found);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
-- 
2.43.0


From d6f325f143ea1c5a3e506cc3ce2ed3e52b31650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 33/48] fix: searching in diff mode selects elements of the
 other document

---
 src/curseSplitOutput.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index ee87a5f..5dd7348 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -310,10 +310,12 @@ bool CurseSplitOutput::jumpToNextSearch(const JSonElement *current, bool &select
 
 unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
+    const unsigned short currentWin = selectedWin;
     unsigned int result =0;
 
-    for (t_subWindow &w : subWindows)
-        result += search(searchPattern, w.root);
+    for (selectedWin =0; selectedWin < nbInputs; ++selectedWin)
+        result += search(searchPattern, subWindows.at(selectedWin).root);
+    selectedWin = currentWin;
     return result;
 }
 
@@ -872,9 +874,9 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From f2d4cdc30b99cb7aa90d6f7d7adf2f2f64b17bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 34/48] fix: string values of objects are printed without
 quotes

---
 src/simpleOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index 32ef9e1..67713a9 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -22,7 +22,10 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        if (dynamic_cast<const JSonPrimitive<std::string>*> (**item))
+            out << "\"" << escape((**item)->stringify()) << "\"";
+        else
+            out << (**item)->stringify();
         if (!params.compressed())
             out << std::endl;
     }
-- 
2.43.0


From b48fb29607a152382958d414da5f9d8f78468cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 35/48] fix: stepping after the last child of an object's
 member stops there

---
 src/jsonElement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index ef02a70..fb89933 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -85,6 +85,8 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
+    if (dynamic_cast<const JSonObjectEntry*>(parent))
+        return parent->findNext(); // Entry's value, its brothers are the entry's ones
     if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
         return nullptr; // Root node, can't have brothers
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
-- 
2.43.0


From 0c3a48765f9c2ed2a54157db63323f74c1a3bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 36/48] fix: diff mode may divide by zero when starting

---
 src/curseSplitOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5dd7348..5cc5884 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -27,6 +27,7 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
 CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
 {
     diffMatrice = nullptr;
+    nbInputs = 1; // read by init to get the screen size
     init();
 }
 
-- 
2.43.0


From 2061c44fbb9b1478b89444c5daffecb79de7a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 37/48] fix: case insensitive searches never match non-ascii
 characters

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 5509539..85ca56b 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -91,7 +91,7 @@ bool SearchPattern::operator()(char a, char b)
     if (a == '\t')
         a = ' ';
     if (flags & SearchPattern::FLAG_CASE)
-        return std::tolower(a) == b;
+        return (char) std::tolower((unsigned char) a) == b;
     return a == b;
 }
 
-- 
2.43.0


From 617a832153dee087e85b971b401dc9b614ee2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 38/48] fix: a key followed by a container may be given a row
 too many

---
 src/curseSimpleOutput.cpp | 2 +-
 src/curseSplitOutput.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 0ac24e3..171f88b 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -322,7 +322,7 @@ bool CurseSimpleOutput::writeKey(const std::string &key, const size_t keylen, t_
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    cursor.second += write(cursor.first, cursor.second, key, keylen, screenSize.first -extraLen -2, flags);
+    cursor.second += write(cursor.first, cursor.second, key, keylen +extraLen +2, screenSize.first, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 5cc5884..1ef28aa 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -590,7 +590,7 @@ bool CurseSplitOutput::writeKey(t_subWindow &w, const std::string &key, const si
     }
     char oldType = flags.type();
     flags.type(OutputFlag::TYPE_OBJKEY);
-    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen, screenSize.first -extraLen -2 -2, flags);
+    w.cursor.second += write(w.cursor.first, w.cursor.second, key, keylen +extraLen +2, screenSize.first -2, flags);
     flags.type(OutputFlag::TYPE_OBJ);
     write(": ", flags);
     flags.type(oldType);
-- 
2.43.0


From 1c57a313fd5411662e8a1bd159ea4fe97aa01106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 39/48] fix: an input file named ARGS is dropped when a text
 follows

---
 src/params.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/params.cpp b/src/params.cpp
index eea9de8..b67c71b 100644
--- a/src/params.cpp
+++ b/src/params.cpp
@@ -46,7 +46,11 @@ bool Params::read()
         if (!input && !inDiff)
         {
             if (tmp == "--")
+            {
+                if (inputs.contains("ARGS"))
+                    throw std::runtime_error("Cannot compare ARGS and ARGS files (path are identical)");
                 inputs["ARGS"] = input = new std::stringstream();
+            }
             else if (tmp == "-W")
                 strict = false;
             else if (tmp == "--ascii")
-- 
2.43.0


From 095e8b9886e93cb850d07d4541c536a7d0c310cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 40/48] fix: the way back through the comparison table stepped
 before the first element of a container

---
 include/levenshteinMatrice.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index 42d1ac1..957456e 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -171,14 +171,14 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                 if (_i && (!_j || matrice[_i][_j] > matrice[_i-1][_j]))
                 {
                     operations[*i] = eLevenshteinOperator::add;
-                    --i;
-                    --_i;
+                    if (--_i)
+                        --i;
                 }
                 else if (_j && (!_i || matrice[_i][_j] > matrice[_i][_j -1]))
                 {
                     operations[*j] = eLevenshteinOperator::add;
-                    --j;
-                    --_j;
+                    if (--_j)
+                        --j;
                 }
                 else if (_i && _j)
                 {
@@ -192,22 +192,22 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     for (std::pair<const JSonElement *, const JSonElement *> e : (subMatrice[_i -1][_j -1])->getEquivalences())
                         equivalences[e.first] = e.second;
                     equivalences[*i] = *j;
-                    --i;
-                    --j;
-                    --_i;
-                    --_j;
+                    if (--_i)
+                        --i;
+                    if (--_j)
+                        --j;
                 }
                 else if (_i)
                 {
                     operations[*i] = eLevenshteinOperator::add;
-                    --i;
-                    --_i;
+                    if (--_i)
+                        --i;
                 }
                 else if (_j)
                 {
                     operations[*j] = eLevenshteinOperator::add;
-                    --j;
-                    --_j;
+                    if (--_j)
+                        --j;
                 }
             }
         }
-- 
2.43.0


From 608b7bc4b4b53cd6613342b9e5e8ae6a9c3e37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 41/48] fix: a search in the diff view unfolds one side only,
 leaving the selection of the other hidden

---
 include/curseSplitOutput.hh | 5 +++++
 src/curseSplitOutput.cpp    | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/curseSplitOutput.hh b/include/curseSplitOutput.hh
index 107aaef..a4f941a 100644
--- a/include/curseSplitOutput.hh
+++ b/include/curseSplitOutput.hh
@@ -98,6 +98,11 @@ class CurseSplitOutput: public CurseOutput
 
         void setSelection(const JSonElement *);
 
+        /**
+         * unfold all item's parents, and what they are paired with
+        **/
+        void unfold(const JSonElement *);
+
         void computeDiff();
         std::deque<t_subWindow> subWindows;
 
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 1ef28aa..17dc743 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -347,6 +347,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
     return subWindows.at(selectedWin).searchResults.size();
 }
 
+void CurseSplitOutput::unfold(const JSonElement *item)
+{
+    CurseOutput::unfold(item);
+    // As when expanding, what is paired with a container follows it
+    while ((item = item->getParent()))
+        collapsed.erase((const JSonContainer *) diffMatrice->getEquivalence(item));
+}
+
 bool CurseSplitOutput::jumpToNextSearch()
 {
     bool selectFound = false;
-- 
2.43.0


From afc29d9f2e0656029db896ba7e16f20cee496dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 42/48] fix: closing a container in the diff view reads the
 iterator just popped

---
 src/curseSplitOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 17dc743..9d71431 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -651,8 +651,10 @@ bool CurseSplitOutput::redraw(t_subWindow &w, std::pair<int, JSonContainer *> &i
     (item.first)++;
     if ((unsigned int) item.first == item.second->size())
     {
+        JSonContainer *container = item.second; // item is gone after pop
+
         w.parentsIterators.pop();
-        return writeContainer(item.second, false);
+        return writeContainer(container, false);
     }
     currentItem = list_at<JSonElement*>(*(item.second), item.first);
     return redraw(w, currentItem);
-- 
2.43.0


From 65a05b7fdede2cd333a9dcc35edaae3d9fbce1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 43/48] fix: moving down in the diff view skips the content of
 a member at the bottom of the screen

---
 src/curseSplitOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 9d71431..93ec1d4 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -399,7 +399,8 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
         }
         if (!w.select_down)
         {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
+            const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(w.selection);
+            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(entry ? **entry : w.selection);
             if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
                 w.select_down = *(pselect->cbegin());
             else
-- 
2.43.0


From 542840650872b1f9b80617463fdccd37db8e016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 44/48] fix: after a search that wraps around, keys use
 neighbours not looked up yet

---
 src/curseOutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 4de3aab..56036a6 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -157,10 +157,10 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
-
+    // As in loop, the keys to come need the selection to be on screen
+    while (!redraw());
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
-    return result;
+    return true;
 }
 
 unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, OutputFlag flags)
-- 
2.43.0


From 4cb0709dbde3c6e26c3a4153ca3bc35798b8ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 45/48] fix: a searched text with characters of several bytes
 is never found

The terminal gives bytes; keeping each one as a wide character encoded them twice.
---
 src/curseOutput.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 56036a6..b00c57b 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -203,7 +203,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer;
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -214,35 +214,29 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     {
         int c;
 
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
-        if (c == L'\n' || c == L'\r')
+        if (c == '\n' || c == '\r')
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == '\b' || c == 127)
         {
+            // wgetch gives bytes: the last character goes with the bytes that continue it
+            while (!params.isIgnoringUnicode() && buffer.size() > 1 && (buffer.back() & 0xC0) == 0x80)
+                buffer.pop_back();
             if (!buffer.empty())
                 buffer.pop_back();
         }
         else if (c == 27)
             abort = true;
-        else
+        else if (c > 0 && c <= 0xFF)
             buffer += c;
     }
     wtimeout(w, 150);
     curs_set(false);
 
-    {
-        const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t) +1];
-        const size_t len = wcstombs(&bytesString[0], buffer.c_str(), size * sizeof(wchar_t));
-        bytesString[len == (size_t) -1 ? 0 : len] = '\0';
-        std::string str;
-        if (params.isIgnoringUnicode())
-            str = bytesString;
-        else
-            str = StreamConsumer::extractUnicode(bytesString);
-        return abort ? nullptr : new SearchPattern(str);
-    }
+    if (abort)
+        return nullptr;
+    return new SearchPattern(params.isIgnoringUnicode() ? buffer : StreamConsumer::extractUnicode(buffer));
 }
 
 void CurseOutput::writeTopLine(const std::string &buffer, short color) const
-- 
2.43.0


From fcfaf314bc8fb0407cc15091dfd7b580977b318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 46/48] fix: the erase key is not recognized while typing a
 searched text

---
 src/curseOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index b00c57b..0dda1e4 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -218,7 +218,7 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
         c = wgetch(w);
         if (c == '\n' || c == '\r')
             break;
-        else if (c == '\b' || c == 127)
+        else if (c == '\b' || c == 127 || c == KEY_BACKSPACE)
         {
             // wgetch gives bytes: the last character goes with the bytes that continue it
             while (!params.isIgnoringUnicode() && buffer.size() > 1 && (buffer.back() & 0xC0) == 0x80)
-- 
2.43.0


From 077dee4fccff34bc23a181de70feb139553757a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 47/48] fix: in a scrolled diff view the marks are drawn on the
 wrong rows

---
 src/curseSplitOutput.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 93ec1d4..6c1617e 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -490,7 +490,12 @@ bool CurseSplitOutput::redraw()
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
                         for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                        {
+                            const unsigned int y = (wi.cursor.second)++;
+
+                            if (y > wi.scrollTop)
+                                displayDiffOp(wi.innerWin, y - wi.scrollTop, eLevenshteinOperator::rem);
+                        }
                 restart = true;
 
                 break;
@@ -793,7 +798,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 358bfc66c5c9cb14633ad2aef0437b87cd46ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 48/48] fix: in the plain view, right on a member at the bottom
 of the screen skips the elements it holds

---
 src/curseSimpleOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index 171f88b..2c8b275 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -62,7 +62,8 @@ bool CurseSimpleOutput::redraw()
         selectIsLast = true;
     if (!select_down)
     {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
+        const JSonObjectEntry *entry = dynamic_cast<const JSonObjectEntry*>(selection);
+        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(entry ? **entry : selection);
         if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
             select_down = *(pselect->cbegin());
         else
-- 
2.43.0

