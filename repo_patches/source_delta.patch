From adf734103f5453495b5a187adee18249b74422e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:04 +0000
Subject: [PATCH 01/44] fix: fail cleanly when a trace file cannot be opened

openWithTimeout passed a descriptor of -1 to FD_SET, which is undefined
behaviour and aborts the process in fortified builds.
---
 cffi-interface/trace-db/Utils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..74cfecd 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -54,6 +54,10 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    if (fd < 0) {
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From c493e2665f6b59a04e80f22af9c0e6500c70aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:14 +0000
Subject: [PATCH 02/44] fix: wait for traces on descriptors of any number

select() cannot handle descriptors of FD_SETSIZE and above: FD_SET then
writes out of bounds. Use poll() instead.
---
 cffi-interface/trace-db/Utils.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 74cfecd..b744746 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -7,9 +7,13 @@
 #define __UTILS_HPP
 
 #include <fcntl.h>
+#include <poll.h>
+#include <unistd.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <climits>
 #include <iostream>
 
 #include <boost/iostreams/device/file_descriptor.hpp>
@@ -58,24 +62,22 @@ inline boost::iostreams::stream_buffer
         throw TraceError(std::string(filename) + " could not be opened.");
     }
 
-    /* Now use select() to wait until there is data to read. For a regular
+    /* Now use poll() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-    fd_set set;
-    FD_ZERO(&set);
-    FD_SET(fd, &set);
+    struct pollfd pfd;
+    pfd.fd = fd;
+    pfd.events = POLLIN;
+    pfd.revents = 0;
 
+    /* poll() takes milliseconds in an int; a longer timeout is clamped. */
+    int timeout = -1;
     if (timeout_seconds) {
-        struct timeval timeout;
-        timeout.tv_sec = timeout_seconds;
-        timeout.tv_usec = 0;
-
-        result = select(fd + 1, &set, NULL, NULL, &timeout);
-    }
-    else {
-        result = select(fd + 1, &set, NULL, NULL, NULL);
+        timeout = std::min<uint64_t>(timeout_seconds, INT_MAX / 1000) * 1000;
     }
 
+    result = poll(&pfd, 1, timeout);
+
     if (result == 1) {
         /* Switch back to block mode */
         int flags = fcntl(fd, F_GETFL, 0);
-- 
2.43.0


From cd1632709f57cd32ce8ca846ded47590a430d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:55 +0000
Subject: [PATCH 03/44] fix: keep waiting for a trace when a signal arrives

A signal handled while waiting for input made the wait fail with EINTR,
which was reported as a trace that could not be opened.
---
 cffi-interface/trace-db/Utils.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index b744746..c9e896b 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -13,6 +13,8 @@
 #include <sys/stat.h>
 
 #include <algorithm>
+#include <cerrno>
+#include <chrono>
 #include <climits>
 #include <iostream>
 
@@ -70,13 +72,25 @@ inline boost::iostreams::stream_buffer
     pfd.events = POLLIN;
     pfd.revents = 0;
 
-    /* poll() takes milliseconds in an int; a longer timeout is clamped. */
-    int timeout = -1;
-    if (timeout_seconds) {
-        timeout = std::min<uint64_t>(timeout_seconds, INT_MAX / 1000) * 1000;
-    }
-
-    result = poll(&pfd, 1, timeout);
+    /* A signal may interrupt the wait; resume it with the time that is left.
+       poll() takes milliseconds in an int; a longer timeout is clamped. */
+    typedef std::chrono::steady_clock clock;
+    const clock::time_point start = clock::now();
+    const int64_t timeout =
+        std::min<uint64_t>(timeout_seconds, INT_MAX / 1000) * 1000;
+
+    do {
+        int64_t remaining = -1;
+
+        if (timeout) {
+            const int64_t elapsed =
+                std::chrono::duration_cast<std::chrono::milliseconds>(
+                    clock::now() - start).count();
+            remaining = std::max<int64_t>(timeout - elapsed, 0);
+        }
+
+        result = poll(&pfd, 1, remaining);
+    } while (result < 0 && errno == EINTR);
 
     if (result == 1) {
         /* Switch back to block mode */
-- 
2.43.0


From b754c8ad642ba922c5f03190b936ad4133d5a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:36 +0000
Subject: [PATCH 04/44] fix: detect short and failed reads where they happen

A read that came up short was noticed only by the next read, so a trace
cut in its header was accepted as an empty one and parsing went on with
uninitialised data, and an I/O error between two trace entries was taken
for the end of the trace.
---
 cffi-interface/trace-db/TracePoint.hpp | 6 +++++-
 cffi-interface/trace-db/Utils.hpp      | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..54f7b28 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -262,7 +262,11 @@ private:
 
         while (1) {
             char c = (char) INVALID_TAG;
-            BINARY_READ(is, &c, sizeof(c));
+            BINARY_CHECK(is);
+            is.get(c);
+            if (is.bad()) {
+                throw TraceError("Trace stream in bad state.");
+            }
             enum trace_entry_tag tag = (trace_entry_tag) c;
 
             if (!is.good() || tag == END_ENTRY) {
diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index c9e896b..6f28460 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -23,7 +23,7 @@
 
 #include "TraceError.hpp"
 
-#define BINARY_READ(stream, ptr, size)                          \
+#define BINARY_CHECK(stream)                                    \
     do {                                                        \
         if (!stream.good()) {                                   \
             if (stream.eof()) {                                 \
@@ -33,7 +33,13 @@
                 throw TraceError("Trace stream in bad state."); \
             }                                                   \
         }                                                       \
+    } while (0)
+
+#define BINARY_READ(stream, ptr, size)                          \
+    do {                                                        \
+        BINARY_CHECK(stream);                                   \
         stream.read( (char*) ptr, size );                       \
+        BINARY_CHECK(stream);                                   \
     } while (0)
 
 #define BINARY_WRITE(stream, ptr, size)   \
-- 
2.43.0


From b6b535d50b19cb3ba27638854099b310c7bc87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:44 +0000
Subject: [PATCH 05/44] fix: reject an unterminated name dictionary

The last name was read past the end of the buffer when it lacked its
terminator. The buffer also leaked when reading it failed.
---
 cffi-interface/trace-db/Trace.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..9603d59 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,23 +54,24 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
+
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated name dictionary.");
+            }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From ee53c5524e033036d0b3e4212c8a8f319425d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:29 +0000
Subject: [PATCH 06/44] fix: validate the name index of types when reading a
 trace

An index beyond the name dictionary was used unchecked by get_types().
---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 9603d59..682b896 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -79,7 +79,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From c5aeeb73fbd033fae691c582205c989887000fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:09 +0000
Subject: [PATCH 07/44] fix: validate a type's format before storing it as an
 enum

Reading arbitrary bytes into an enum object is undefined behaviour.
---
 cffi-interface/trace-db/TypeDescription.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..f39db4a 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -52,12 +52,14 @@ private:
         m_size = 0;
 
         BINARY_READ(is, &m_name_index, sizeof(m_name_index));
-        BINARY_READ(is, &m_format, sizeof(m_format));
+        uint32_t format = INVALID_FORMAT;
+        BINARY_READ(is, &format, sizeof(format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if (format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
+        m_format = (enum type_format) format;
 
         return is;
     }
-- 
2.43.0


From 920070aa6ad12cc59a5f3fe7cf13d396c2b85d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:46 +0000
Subject: [PATCH 08/44] fix: initialise the statement of points without a
 statement entry

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 54f7b28..fa0462c 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From b85677984495db44d32bd06554298f2850641394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:26 +0000
Subject: [PATCH 09/44] fix: do not share auxiliary values between threads
 while reading

The function-local static made concurrent reads of separate traces mix up
their auxiliary values.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index fa0462c..92472c5 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -296,7 +296,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From 9fda28b9bbd6646f57d9e7c3b9f625503ede3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:02 +0000
Subject: [PATCH 10/44] fix: validate value sizes when reading variables

Sizes above eight bytes overflowed the value, and sizes which cannot be
written back were accepted.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..ed37239 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -147,13 +147,26 @@ private:
             }
             break;
         case UNSIGNED:
+            {
+                if (m_size != 1 && m_size != 2 && m_size != 4 && m_size != 8) {
+                    throw TraceError("Invalid size for unsigned integer.");
+                }
+                BINARY_READ(is, &m_value.u, m_size);
+            }
+            break;
         case FLOAT:
             {
+                if (m_size != sizeof(float) && m_size != sizeof(double)) {
+                    throw TraceError("Invalid size for floating point.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
             }
             break;
         case POINTER:
             {
+                if (m_size != 4 && m_size != 8) {
+                    throw TraceError("Invalid size for pointer.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
                 m_buffer_size = map.computeBufferSize(m_value.u);
                 if (m_buffer_size != UINT64_MAX) {
-- 
2.43.0


From 7ba825101c11427a2a2ec649cefd17b49a9bae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:55 +0000
Subject: [PATCH 11/44] fix: give variables ownership of their blob values

The memory of blob values was shared between copies and never released,
so every blob read or deserialized leaked. A failed allocation of a blob
was not noticed either.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 49 +++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index ed37239..14debc0 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -8,7 +8,11 @@
 #ifndef __TRACE_VAR_INFO_HPP
 #define __TRACE_VAR_INFO_HPP
 
+#include <cstdlib>
+#include <cstring>
 #include <istream>
+#include <memory>
+#include <new>
 #include <ostream>
 #include <string>
 #include <vector>
@@ -76,6 +80,28 @@ private:
     uint64_t m_buffer_size;
     uint8_t m_has_buffer_size;
 
+    // Blob values are stored on the heap and owned by this object.
+    static void *allocateBlob(uint32_t size) {
+        void *blob = malloc(size ? size : 1);
+        if (blob == NULL) {
+            throw std::bad_alloc();
+        }
+        return blob;
+    }
+
+    static VarValue copyValue(VarValue value,
+                              type_format format,
+                              uint32_t size) {
+        if (format == BLOB) {
+            void *blob = allocateBlob(size);
+            if (size) {
+                memcpy(blob, value.ptr, size);
+            }
+            value.ptr = blob;
+        }
+        return value;
+    }
+
     std::istream & read(std::istream & is,
                         const Names & names,
                         const TypeDescriptions & types) {
@@ -185,8 +211,10 @@ private:
                     BINARY_READ(is, &m_size, sizeof(m_size));
                 }
 
-                m_value.ptr = malloc(m_size);
-                BINARY_READ(is, m_value.ptr, m_size);
+                std::unique_ptr<void, decltype(&free)>
+                    blob(allocateBlob(m_size), &free);
+                BINARY_READ(is, blob.get(), m_size);
+                m_value.ptr = blob.release();
                 break;
             }
         case INVALID_FORMAT:
@@ -309,7 +337,7 @@ public:
                  uint32_t size,
                  uint64_t buffer_size,
                  uint8_t has_buffer_size) :
-        m_value(value),
+        m_value(copyValue(value, format, size)),
         m_name_index(name_index),
         m_type_index(type_index),
         m_format(format),
@@ -319,7 +347,7 @@ public:
     {}
 
     TraceVarInfo(const TraceVarInfo & other) :
-        m_value(other.m_value),
+        m_value(copyValue(other.m_value, other.m_format, other.m_size)),
         m_name_index(other.m_name_index),
         m_type_index(other.m_type_index),
         m_format(other.m_format),
@@ -341,6 +369,12 @@ public:
         read(is, names, types, map);
     }
 
+    ~TraceVarInfo() {
+        if (m_format == BLOB) {
+            free(m_value.ptr);
+        }
+    }
+
     TraceVarInfo& operator=(const TraceVarInfo & other) = delete;
 
     inline VarValue getValue() const {
@@ -506,6 +540,11 @@ public:
     template<typename Archive>
     void load(Archive & ar,
               const unsigned int version) {
+        if (m_format == BLOB) {
+            free(m_value.ptr);
+        }
+        m_value.ptr = NULL;
+
         ar & m_name_index;
         ar & m_type_index;
         ar & m_format;
@@ -514,7 +553,7 @@ public:
         ar & m_has_buffer_size;
 
         if (m_format == BLOB) {
-            m_value.ptr = malloc(m_size);
+            m_value.ptr = allocateBlob(m_size);
             for (uint32_t i = 0; i < m_size; i++)
                 ar & ((char*) m_value.ptr)[i];
         }
-- 
2.43.0


From f45c7749b15b83e3b88bcee1b3c3a8eaff53ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:08 +0000
Subject: [PATCH 12/44] fix: write pointers in the size given by their type

Pointers of four bytes were read as such but written with eight.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 14debc0..3ff8493 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -300,8 +300,7 @@ private:
             break;
         case POINTER:
             {
-                void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &m_value.u, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From cb0a6e9ba39a297f7541e1a41bf9c29e9d4af08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:46 +0000
Subject: [PATCH 13/44] fix: write blobs of fixed-size types so that they can
 be read back

The size was written before the bytes of every blob, but it is read only
for blobs of variable-sized types.
---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 10 ++++++++--
 cffi-interface/trace-db/TraceVarInfo.hpp | 15 +++++++++++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 682b896..1ec0482 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -118,7 +118,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 92472c5..3b10cb4 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -316,6 +316,13 @@ private:
     }
 
     std::ostream & write(std::ostream & os) const {
+        return write(os, TypeDescriptions());
+    }
+
+public:
+    // Write in the layout which the given types of the trace prescribe.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -326,7 +333,7 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            var.get().write(os, types);
         }
 
         for (auto & aux : getAux()) {
@@ -338,7 +345,6 @@ private:
         return os;
     }
 
-public:
     TracePoint() :
         m_counter(0),
         m_statement(0),
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 3ff8493..fd6e59a 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -225,7 +225,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    // Blobs of a fixed-size type are stored without their size.
+    std::ostream & write(std::ostream & os, bool fixed_size = false) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -306,7 +307,9 @@ private:
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (!fixed_size) {
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
@@ -512,6 +515,14 @@ public:
         return seed;
     }
 
+    // Write in the layout which the given types of the trace prescribe.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os,
+                     m_type_index < types.size() &&
+                     types[m_type_index].getSize() != 0);
+    }
+
     friend std::ostream & operator<<(std::ostream & os,
                                      const TraceVarInfo & traceVarInfo) {
         return traceVarInfo.write(os);
-- 
2.43.0


From 25cf81f556b58904dafe9011022a8ead0dfc0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 14/44] fix: evaluate double variables as doubles in predicates

The value of every floating point variable was taken as a float.
---
 cffi-interface/trace-db/QueryObjects.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..832143d 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -565,7 +565,9 @@ private:
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
                 else if (f == FLOAT)
-                    return PredicateValue(var.getValue().f);
+                    return var.getSize() == sizeof(float) ?
+                           PredicateValue(var.getValue().f) :
+                           PredicateValue(var.getValue().d);
                 else
                     return PredicateValue();
             }
-- 
2.43.0


From 613f4f96005f87a13c1c4745b20d8044493115bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:52 +0000
Subject: [PATCH 15/44] fix: return one result per point for queries without
 free variables

The empty binding was also enumerated, giving two results per point.
---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 1ec0482..105113d 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -178,6 +178,7 @@ private:
                              FlyweightTraceVarInfos(),
                              std::vector<uint64_t>());
             hard_query_results.push_back(point);
+            return hard_query_results;
         }
 
         // Find possible bindings for each free variable
-- 
2.43.0


From df58a2a4d44c413f3b11ad94f4ed78d1c91e5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:24 +0000
Subject: [PATCH 16/44] fix: compare the data of trace points in operator==

---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 3b10cb4..735cb7a 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -439,7 +439,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 9df9e59ef70bc530d2badf8f5206f356bb099b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 17/44] fix: do not keep dangling references in the predicate
 cache

The cache outlives the predicates and variables its keys referred to, so
that later queries compared against freed memory and could return stale
answers.
---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 832143d..d107afc 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,10 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    // These are copies as the object may outlive the arguments
+    // it was created from when it is stored in a cache.
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 5aa0761aa63689009f89e6430423453e3530f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:35 +0000
Subject: [PATCH 18/44] fix: guard the predicate cache shared by all traces

Threads querying separate databases modified the cache concurrently.
---
 cffi-interface/trace-db/TracePoint.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 735cb7a..60ed0d2 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -14,6 +14,7 @@
 #include <cstdint>
 #include <functional>
 #include <istream>
+#include <mutex>
 #include <ostream>
 #include <vector>
 #include <unordered_map>
@@ -70,7 +71,9 @@ private:
     cachedSatisfiesPredicate(const Predicate & predicate,
                              const FlyweightTraceVarInfos & variables) const {
         static std::unordered_map<EvaluatePredicate, bool> m_cache;
+        static std::mutex m_cache_mutex;
         EvaluatePredicate functor(predicate, variables);
+        std::lock_guard<std::mutex> lock(m_cache_mutex);
 
         if (m_cache.find(functor) == m_cache.end()) {
             m_cache[functor] = functor();
-- 
2.43.0


From b5a624309231daa23afe456da57a90a647b6a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:02 +0000
Subject: [PATCH 19/44] fix: ignore updates of the largest address in the
 memory map

It marks the end of the list and is never found, but freeing it deleted
the list's head.
---
 cffi-interface/trace-db/MemoryMap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..0525a15 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -148,6 +148,10 @@ public:
 
     // Update the memory map with new allocation information
     void updateMemoryMap(const TraceBufferSize &traceBufferSize) {
+        // The largest address is used as a sentinel and can't be a key
+        if (traceBufferSize.getAddress() == UINT64_MAX)
+            return;
+
         if (traceBufferSize.getSize() == 0)
             skipListRemove(traceBufferSize.getAddress());
         else
-- 
2.43.0


From 6c22244b35f48328e5dda20ca1253ee904d5d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:42 +0000
Subject: [PATCH 20/44] fix: compute buffer sizes of regions at the end of the
 address space

The end of the region wrapped around.
---
 cffi-interface/trace-db/MemoryMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index 0525a15..d4a5801 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -167,9 +167,9 @@ public:
         snode *result;
         result = skipListFind(address);
         if (result) {
-            uint64_t region_end = result->key + result->value;
-            if (address <= region_end) {
-                bufferSize = region_end - address;
+            uint64_t offset = address - result->key;
+            if (offset <= result->value) {
+                bufferSize = result->value - offset;
             }
         }
 
-- 
2.43.0


From 140515520c5120a80b53d547e3ac4f6acadbebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 21/44] fix: store auxiliary values of in-memory trace points

They were written beyond the end of an empty vector.
---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From 2ddd1ded731775d6994877572e70be96e8292a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 22/44] fix: make the order of variables a strict weak order

Blobs were compared beyond the end of the shorter one, and to other
variables by the address of their value.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index fd6e59a..f84b1c8 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -412,7 +412,8 @@ public:
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                                 other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
@@ -428,6 +429,10 @@ public:
                             other.m_buffer_size,
                             other.m_has_buffer_size);
         }
+        else if (m_format == BLOB or other.m_format == BLOB) {
+            // Blobs come last, as their value is not comparable
+            return m_format != BLOB;
+        }
         else {
             return std::tie(m_value.u,
                             m_name_index,
-- 
2.43.0


From cbb42fc39ce324829d01011ad1dd56bbb3679c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:07 +0000
Subject: [PATCH 23/44] fix: print predicates with <= and >=

---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index d107afc..335d765 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -194,6 +194,12 @@ public:
             case GREATER_THAN:
                 name = ">";
                 break;
+            case LESS_THAN_OR_EQUAL:
+                name = "<=";
+                break;
+            case GREATER_THAN_OR_EQUAL:
+                name = ">=";
+                break;
             case EQUAL:
                 name = "=";
                 break;
-- 
2.43.0


From 599035a4e4f901e3e8874875f097c87e6ef533dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:17 +0000
Subject: [PATCH 24/44] fix: compare quotients at the precision they are
 computed with

The division is not exact in its guard digits, so that even 6/3 did not
equal 2 in a predicate.
---
 cffi-interface/trace-db/QueryObjects.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 335d765..026d9eb 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -11,6 +11,8 @@
 #include <cassert>
 #include <cstdint>
 #include <functional>
+#include <ios>
+#include <limits>
 #include <ostream>
 
 #include <boost/functional/hash.hpp>
@@ -501,7 +503,14 @@ public:
                 other.m_value.cpp_int->convert_to<
                     boost::multiprecision::cpp_dec_float_50>() :
                 *other.m_value.cpp_float;
-            boost::multiprecision::cpp_dec_float_50 result(lhs/rhs);
+            // Drop the guard digits, in which a quotient is not exact, so that
+            // for instance 6/3 equals 2.
+            boost::multiprecision::cpp_dec_float_50 quotient(lhs/rhs);
+            boost::multiprecision::cpp_dec_float_50 result(
+                quotient.str(
+                    std::numeric_limits<
+                        boost::multiprecision::cpp_dec_float_50>::digits10,
+                    std::ios_base::scientific));
 
             return PredicateValue(result);
         }
-- 
2.43.0


From cd0e670a0d277b3aeca5c8f61238d3f5e7f2779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:14 +0000
Subject: [PATCH 25/44] fix: close the parenthesis of predicates without
 operands

---
 cffi-interface/trace-db/QueryObjects.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 026d9eb..649e2f4 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -229,6 +229,9 @@ public:
                 writePredicate(os, children[i], indent, i != 0);
                 os << ((i == children.size() - 1) ? ")" : "\n");
             }
+
+            if (children.empty())
+                os << ")";
         }
 
         if (indent == 0)
-- 
2.43.0


From dd5edff61914e13a9f96dd60dfa96283616a2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:59 +0000
Subject: [PATCH 26/44] fix: validate tags before converting them to the
 enumeration

---
 cffi-interface/trace-db/TracePoint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 60ed0d2..c7910c5 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -271,14 +271,14 @@ private:
             if (is.bad()) {
                 throw TraceError("Trace stream in bad state.");
             }
-            enum trace_entry_tag tag = (trace_entry_tag) c;
 
-            if (!is.good() || tag == END_ENTRY) {
+            if (!is.good() || c == END_ENTRY) {
                 break;
-            } else if (c >= INVALID_TAG) {
+            } else if ((unsigned char) c >= INVALID_TAG) {
                 throw TraceError("Invalid trace point tag.");
             }
 
+            enum trace_entry_tag tag = (trace_entry_tag) c;
             switch (tag) {
             case STATEMENT_ID:
                 BINARY_READ(is, &m_statement, sizeof(m_statement));
-- 
2.43.0


From 4981a8a01800b1d07b69fa8af7922cbb79c8b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:13 +0000
Subject: [PATCH 27/44] fix: report failures of add_trace_points to the caller

---
 cffi-interface/trace-db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index e732068..57baa1a 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -56,7 +56,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
                      uint64_t n_points,
                      char** c_names,
                      uint32_t n_names)
-{
+try {
     /*
       IMPORTANT: This method is for legacy testing purposes only.
       This method is not complete or efficient.
@@ -142,6 +142,9 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
 
     return true;
 }
+catch (std::exception &ex) {
+    return false;
+}
 
 const void /* Trace */ *get_trace(const void /* TraceDB */ *db_ptr,
                                   uint32_t index)
-- 
2.43.0


From 52c1b174c1fd8eed4ce03adf1a9a3d6a0b4e8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:25 +0000
Subject: [PATCH 28/44] fix: close the descriptor when running out of memory
 while opening

---
 cffi-interface/trace-db/Utils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 6f28460..a1d1c01 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -61,6 +61,10 @@ inline boost::iostreams::stream_buffer
                        uint64_t timeout_seconds) {
     namespace ios = boost::iostreams;
 
+    /* Allocated before the descriptor is open, so that running out of memory
+       does not leak it. */
+    ios::file_descriptor_source fds;
+
     /* Open in non-blocking mode. Returns immediately even if file is a FIFO
        with no writer yet. */
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
@@ -103,7 +107,7 @@ inline boost::iostreams::stream_buffer
         int flags = fcntl(fd, F_GETFL, 0);
         fcntl(fd, F_SETFL, flags & ~O_NONBLOCK);
 
-        ios::file_descriptor_source fds(fd, ios::close_handle);
+        fds.open(fd, ios::close_handle);
         return new ios::stream_buffer<ios::file_descriptor_source>(fds);
     }
     else {
-- 
2.43.0


From bb5217205a9013e3485f85778390112054cb9fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:09 +0000
Subject: [PATCH 29/44] fix: free the skip list node when its links cannot be
 allocated

---
 cffi-interface/trace-db/MemoryMap.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index d4a5801..3034e06 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdlib>
 #include <cstdint>
+#include <memory>
 
 #include "TraceBufferSize.hpp"
 
@@ -73,10 +74,12 @@ private:
                 level = m_height;
             }
 
-            snode *new_node = new snode;
+            std::unique_ptr<snode> owner(new snode);
+            snode *new_node = owner.get();
             new_node->key = key;
             new_node->value = value;
             new_node->next = new snode*[level + 1];
+            owner.release();
 
             snode *current = &m_head;
             for (unsigned int i = m_height; i >= 1; i--) {
-- 
2.43.0


From ec8165f49c14252a5ae6538e441fed43880d304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:51 +0000
Subject: [PATCH 30/44] fix: wait for the handshake file to be filled when it
 is empty at first

---
 instrumentation/c-cpp.lisp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 1f29837..b9d4520 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -318,7 +318,10 @@ void __attribute__((constructor(101))) __bi_setup() {
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
     handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do {
+      sleep(1);
+      clearerr(handshake_file);
+    } while (fgets(buffer, 1024, handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From 55fd6d8e7c64ca2a5163cb9b2d16c5c03ba2ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:31 +0000
Subject: [PATCH 31/44] fix: declare the timeout of add_trace as unsigned in
 the Lisp binding

---
 binary-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 9dc5e27..b6ebe6e 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -219,7 +219,7 @@ the results."
 (defcfun ("add_trace" c-add-trace) :int
   (db :pointer)
   (filename :string)
-  (timeout :int)
+  (timeout :uint32)
   (max-trace-points :uint64))
 (defcfun ("add_trace_points" c-add-trace-points) :int
   (db :pointer)
-- 
2.43.0


From 35320de690df293a9bd9681817e036751d027907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 32/44] fix: allow every trace type with a requested name in
 Lisp queries

Only the first type description with a given name was passed to the
library, and a name not found in the trace gave NIL as type index,
which signals an error when stored as an integer.
---
 binary-trace-db.lisp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index b6ebe6e..3ba9403 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -533,7 +533,12 @@ the results."
          (trace-types (trace-types db index))
          ;; Convert type names to indices
          (type-indices
-          (mapcar {map 'vector {position _ trace-types :test #'string=}}
+          (mapcar (lambda (allowed)
+                    (coerce (iter (for type in trace-types)
+                                  (for i upfrom 0)
+                                  (when (member type allowed :test #'string=)
+                                    (collect i)))
+                            'vector))
                   var-types))
          ;; Create an array of c_free_variable structs
          (free-vars
-- 
2.43.0


From 4529bd71f036ba147a760fe51bf492dab3751819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 33/44] fix: skip points without a file when querying one file

The statement mask left out the flag for the presence of a file, so a
query for file 0 also returned points which belong to no file.
---
 binary-trace-db.lisp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 3ba9403..aee267b 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -573,12 +573,17 @@ the results."
                               (length soft-predicate-ptrs)
                               (if pick (random (expt 2 32)) 0)
                               (if filter 1 0)
+                              ;; The top bit indicates the presence of
+                              ;; a file ID.
                               (if file-id
-                                  (ash (1- (ash 1 +trace-id-file-bits+))
-                                       +trace-id-statement-bits+)
+                                  (logior (ash 1 63)
+                                          (ash (1- (ash 1 +trace-id-file-bits+))
+                                               +trace-id-statement-bits+))
                                   0)
                               (if file-id
-                                  (ash file-id +trace-id-statement-bits+)
+                                  (logior (ash 1 63)
+                                          (ash file-id
+                                               +trace-id-statement-bits+))
                                   0)
                               results-ptr
                               n-results-ptr)
-- 
2.43.0


From 462330510d7fb5a8e9a13926247d942be4706e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 34/44] fix: never use zero as seed when picking a trace point

Seed zero means to search all trace points.
---
 binary-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index aee267b..1e5b5d4 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -571,7 +571,7 @@ the results."
                               predicate-ptr
                               soft-predicate-array
                               (length soft-predicate-ptrs)
-                              (if pick (random (expt 2 32)) 0)
+                              (if pick (1+ (random (1- (expt 2 32)))) 0)
                               (if filter 1 0)
                               ;; The top bit indicates the presence of
                               ;; a file ID.
-- 
2.43.0


From 64dfaa0b320ba0e8029dbeb235aaf348927e9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 35/44] fix: keep results whose variables differ in case only

Results were deduplicated with EQUALP, which ignores the case of
variable and type names.
---
 binary-trace-db.lisp | 2 +-
 sexp-trace-db.lisp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 1e5b5d4..a0a86f0 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -602,7 +602,7 @@ the results."
                                                                 :uint64)
                                                        :filter filter)
                                  :key #'get-statement-and-bindings
-                                 :test #'equalp)
+                                 :test #'equal)
                                ;; No filter, results are deduplicated
                                ;; on the C-side of the query interface.
                                (convert-trace-points trace-ptr
diff --git a/sexp-trace-db.lisp b/sexp-trace-db.lisp
index fce3178..207a659 100644
--- a/sexp-trace-db.lisp
+++ b/sexp-trace-db.lisp
@@ -174,7 +174,7 @@ KWARGS are passed on to the OPEN call."
             (remove-duplicate-statement-and-bindings (query-results)
               (remove-duplicates query-results
                                  :key #'get-statement-and-bindings
-                                 :test #'equalp)))
+                                 :test #'equal)))
     (when-let* ((trace (nth index (traces db))))
       (cons (cons :results
                   (if pick
-- 
2.43.0


From 40546eb6aa6849ce24a89081da609984d861cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 36/44] fix: accept negative values in add-trace-points

The value slot is an unsigned integer, so a negative value could not be
stored in it.
---
 binary-trace-db.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index a0a86f0..614e331 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -322,7 +322,8 @@ the results."
                             (lambda (var-info)
                               (let ((has-size (and (= 4 (length var-info))
                                                    (elt var-info 3))))
-                                `(value ,(elt var-info 2)
+                                `(value ,(logand (elt var-info 2)
+                                                (1- (ash 1 64)))
                                   format ,(if (< (elt var-info 2) 0)
                                               :signed :unsigned)
                                   var-name-index ,(position (elt var-info 0)
-- 
2.43.0


From f0bec97a2f63ca0dade8b0b2422d6936302058ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 37/44] fix: keep metadata in step with traces in
 add-trace-points

Traces are appended to the database, while the metadata was put in
front, so traces were returned with metadata of others.
---
 binary-trace-db.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 614e331..8ad4ddb 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -356,7 +356,8 @@ the results."
       (length trace)
       (create-foreign-array :string (coerce names 'vector))
       (length names))
-    (push metadata (trace-metadata db))))
+    (setf (trace-metadata db)
+          (append (trace-metadata db) (list metadata)))))
 
 (defmethod trace-types ((db binary-trace-db) (index integer))
   "Return the type names from the header of the trace at INDEX in DB."
-- 
2.43.0


From 4e1fe47a7eb7d7b93d600c1b22863fdb0c775aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:07 +0000
Subject: [PATCH 38/44] fix: free what add-trace-points passes to the library

The library copies points and names, so the foreign arrays and strings
are released after the call, and metadata is recorded for stored traces
only.
---
 binary-trace-db.lisp | 120 ++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 54 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 8ad4ddb..6fee6ab 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -304,60 +304,72 @@ the results."
 
 (defmethod add-trace-points ((db binary-trace-db) (trace list)
                              &optional metadata)
-  (let ((names (remove-duplicates
-                 (mappend (lambda (point)
-                            (mappend (lambda (var)
-                                       (list (elt var 0) (elt var 1)))
-                                     (cdr (assoc :scopes point))))
-                          trace)
-                 :test #'string=)))
-    (c-add-trace-points
-      (db-pointer db)
-      (create-foreign-array
-        '(:struct trace-point)
-        (coerce
-          (mapcar
-            (lambda (point)
-              (let ((vars (mapcar
-                            (lambda (var-info)
-                              (let ((has-size (and (= 4 (length var-info))
-                                                   (elt var-info 3))))
-                                `(value ,(logand (elt var-info 2)
-                                                (1- (ash 1 64)))
-                                  format ,(if (< (elt var-info 2) 0)
-                                              :signed :unsigned)
-                                  var-name-index ,(position (elt var-info 0)
-                                                            names
-                                                            :test #'string=)
-                                  type-name-index ,(position (elt var-info 1)
-                                                             names
-                                                             :test #'string=)
-                                  size 8
-                                  has-buffer-size ,(if has-size 1 0)
-                                  buffer-size ,(if has-size
-                                                  (elt var-info 3)
-                                                  0))))
-                            (cdr (assoc :scopes point)))))
-                `(statement
-                  ,(if (cdr (assoc :f point))
-                       (logior (ash 1 63)                      ;flag bit
-                               (ash (cdr (assoc :f point))
-                                    +trace-id-statement-bits+) ;file ID
-                               (cdr (assoc :c point)))         ;AST ID
-                       (cdr (assoc :c point)))
-                  vars ,(create-foreign-array
-                           '(:struct var-info)
-                           (coerce vars 'vector))
-                  n-vars ,(length vars)
-                  aux ,(null-pointer)
-                  n-aux 0)))
-            trace)
-          'vector))
-      (length trace)
-      (create-foreign-array :string (coerce names 'vector))
-      (length names))
-    (setf (trace-metadata db)
-          (append (trace-metadata db) (list metadata)))))
+  (let* ((names (remove-duplicates
+                  (mappend (lambda (point)
+                             (mappend (lambda (var)
+                                        (list (elt var 0) (elt var 1)))
+                                      (cdr (assoc :scopes point))))
+                           trace)
+                  :test #'string=))
+         (var-arrays nil)
+         (points
+          (create-foreign-array
+            '(:struct trace-point)
+            (coerce
+              (mapcar
+                (lambda (point)
+                  (let ((vars (mapcar
+                                (lambda (var-info)
+                                  (let ((has-size (and (= 4 (length var-info))
+                                                       (elt var-info 3))))
+                                    `(value ,(logand (elt var-info 2)
+                                                     (1- (ash 1 64)))
+                                      format ,(if (< (elt var-info 2) 0)
+                                                  :signed :unsigned)
+                                      var-name-index ,(position
+                                                        (elt var-info 0)
+                                                        names
+                                                        :test #'string=)
+                                      type-name-index ,(position
+                                                         (elt var-info 1)
+                                                         names
+                                                         :test #'string=)
+                                      size 8
+                                      has-buffer-size ,(if has-size 1 0)
+                                      buffer-size ,(if has-size
+                                                       (elt var-info 3)
+                                                       0))))
+                                (cdr (assoc :scopes point)))))
+                    (push (create-foreign-array '(:struct var-info)
+                                                (coerce vars 'vector))
+                          var-arrays)
+                    `(statement
+                      ,(if (cdr (assoc :f point))
+                           (logior (ash 1 63)                      ;flag bit
+                                   (ash (cdr (assoc :f point))
+                                        +trace-id-statement-bits+) ;file ID
+                                   (cdr (assoc :c point)))         ;AST ID
+                           (cdr (assoc :c point)))
+                      vars ,(first var-arrays)
+                      n-vars ,(length vars)
+                      aux ,(null-pointer)
+                      n-aux 0)))
+                trace)
+              'vector)))
+         (name-array (create-foreign-array :string (coerce names 'vector))))
+    (unwind-protect
+         (unless (zerop (c-add-trace-points (db-pointer db)
+                                            points
+                                            (length trace)
+                                            name-array
+                                            (length names)))
+           (setf (trace-metadata db)
+                 (append (trace-metadata db) (list metadata))))
+      (mapc #'foreign-free var-arrays)
+      (foreign-free points)
+      (iter (for i below (length names))
+            (foreign-string-free (mem-aref name-array :pointer i)))
+      (foreign-free name-array))))
 
 (defmethod trace-types ((db binary-trace-db) (index integer))
   "Return the type names from the header of the trace at INDEX in DB."
-- 
2.43.0


From 0d4518162d325c7790199e00ee4d9673d809beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:07 +0000
Subject: [PATCH 39/44] fix: free the trace in read-binary-trace

---
 binary-trace-db.lisp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 6fee6ab..5559d64 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -209,9 +209,11 @@ the results."
   (load-libtrace-db)
   (let ((trace-ptr (c-read-trace file timeout max-trace-points)))
     (unless (null-pointer-p trace-ptr)
-      (convert-trace-points trace-ptr
-                            (c-get-points trace-ptr)
-                            (c-trace-size trace-ptr)))))
+      (unwind-protect
+           (convert-trace-points trace-ptr
+                                 (c-get-points trace-ptr)
+                                 (c-trace-size trace-ptr))
+        (c-free-trace trace-ptr)))))
 
 
 ;;; Trace DB interface
-- 
2.43.0


From 6bf83bf350b32a19e396b2adf5e05a653987c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:07 +0000
Subject: [PATCH 40/44] fix: free the text of a serialized database after its
 conversion

---
 binary-trace-db.lisp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 5559d64..eb747d6 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -234,7 +234,8 @@ the results."
   (index :uint32))
 (defcfun ("n_traces" c-n-traces) :uint32
   (db :pointer))
-(defcfun ("serialize_trace_db" c-serialize-trace-db) :string
+(defcfun ("serialize_trace_db" c-serialize-trace-db)
+    (:string :free-from-foreign t)
   (db :pointer))
 (defcfun ("deserialize_trace_db" c-deserialize-trace-db) :pointer
   (text :string))
-- 
2.43.0


From 6c8509288e7762ffc7127a1b698eb358122f0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:07 +0000
Subject: [PATCH 41/44] fix: release foreign databases with their Lisp objects

The finalizer referred to the object it was attached to, so the object
was never collected, and restored databases had none.
---
 binary-trace-db.lisp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index eb747d6..08e9889 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -250,11 +250,17 @@ the results."
                    :accessor trace-metadata
                    :initform nil)))
 
+(defun free-with-instance (instance)
+  "Free the foreign database of INSTANCE when INSTANCE is collected."
+  ;; The finalizer must not refer to INSTANCE.
+  (let ((db-pointer (db-pointer instance)))
+    (finalize instance (lambda () (c-free-db db-pointer)))))
+
 (defmethod initialize-instance :after ((instance binary-trace-db) &key)
   (load-libtrace-db)
   (when (null (db-pointer instance))
     (setf (db-pointer instance) (c-create-db))
-    (finalize instance (lambda () (c-free-db (db-pointer instance))))))
+    (free-with-instance instance)))
 
 (defvar *binary-trace-db-obj-code* (register-code 255 'binary-trace-db)
   "Object code for serialization of binary-trace-db software objects.")
@@ -272,8 +278,12 @@ the results."
          (db-pointer (when (not (emptyp (cdr (assoc :db restore))))
                        (c-deserialize-trace-db (cdr (assoc :db restore)))))
          (trace-metadata (cdr (assoc :trace-metadata restore))))
-    (make 'binary-trace-db :db-pointer db-pointer
-                           :trace-metadata trace-metadata)))
+    (let ((db (make 'binary-trace-db :db-pointer db-pointer
+                                     :trace-metadata trace-metadata)))
+      ;; Without a pointer a new database was created with a finalizer.
+      (when db-pointer
+        (free-with-instance db))
+      db)))
 
 (defmethod n-traces ((db binary-trace-db))
   "Return the number of traces stored in DB."
-- 
2.43.0


From a4830cd801fe53416ce14f9617e7a8ddc7e29a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:07 +0000
Subject: [PATCH 42/44] fix: restrict queries of S-expression traces to the
 given file

The FILE-ID argument of QUERY-TRACE was ignored.
---
 sexp-trace-db.lisp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sexp-trace-db.lisp b/sexp-trace-db.lisp
index 207a659..5eec3e7 100644
--- a/sexp-trace-db.lisp
+++ b/sexp-trace-db.lisp
@@ -154,7 +154,7 @@ KWARGS are passed on to the OPEN call."
 (defmethod query-trace ((db sexp-trace-db) index var-names var-types
                          &key pick file-id predicate soft-predicates
                            (filter (constantly t)))
-  (declare (ignorable file-id var-names predicate))
+  (declare (ignorable var-names predicate))
   (assert (null soft-predicates)
           nil "SOFT-PREDICATES are not supported by SEXP-TRACE-DB")
   (labels ((satisfying-assignments-at-point (pt)
@@ -175,7 +175,10 @@ KWARGS are passed on to the OPEN call."
               (remove-duplicates query-results
                                  :key #'get-statement-and-bindings
                                  :test #'equal)))
-    (when-let* ((trace (nth index (traces db))))
+    (when-let* ((trace (if file-id
+                           (remove-if-not [{eq file-id} #'cdr {assoc :f}]
+                                          (nth index (traces db)))
+                           (nth index (traces db)))))
       (cons (cons :results
                   (if pick
                       (nest (remove-duplicate-statement-and-bindings)
-- 
2.43.0


From 5c2e93d6c8c92603f46de341220dae8496e50eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:24 +0000
Subject: [PATCH 43/44] fix: a query that ran out of memory left an incomplete
 set of points behind

The points selected by a statement filter were collected in the cache itself,
so that running out of memory left a part of them there, which every later
query with the same filter took for all of them.
---
 cffi-interface/trace-db/Trace.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 105113d..4a30c29 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -290,12 +290,14 @@ public:
             std::make_pair(mask, statement);
 
         if (m_getpoints_cache.find(key) == m_getpoints_cache.end()) {
-            m_getpoints_cache[key] = TracePoints();
+            // Complete before it is stored, should memory run out.
+            TracePoints matching;
             for (auto & point : m_points) {
                 if ((point.getStatement() & mask) == statement) {
-                    m_getpoints_cache[key].push_back(point);
+                    matching.push_back(point);
                 }
             }
+            m_getpoints_cache[key].swap(matching);
         }
 
         return m_getpoints_cache[key];
-- 
2.43.0


From 2031b715e6b74024318b4f9976382adb48235924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:24 +0000
Subject: [PATCH 44/44] fix: a query that ran out of memory left a wrong
 predicate value behind

The cache entry was made before the predicate was evaluated; when memory ran
out during the evaluation, it stayed behind as false.
---
 cffi-interface/trace-db/TracePoint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index c7910c5..1311ca2 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -76,7 +76,9 @@ private:
         std::lock_guard<std::mutex> lock(m_cache_mutex);
 
         if (m_cache.find(functor) == m_cache.end()) {
-            m_cache[functor] = functor();
+            // Evaluated before it is stored, should memory run out.
+            const bool satisfied = functor();
+            m_cache[functor] = satisfied;
         }
 
         return m_cache[functor];
-- 
2.43.0

