From be70cc4a1537f330f161845493c0fba1e0542bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 1/7] sim: guarded seams (FLBWT_SIM) for table, queue and
 index-width tunables

---
 include/queue.hpp     |  3 ++-
 include/sim_hooks.hpp | 32 ++++++++++++++++++++++++++++++++
 src/flbwt.cpp         |  5 +++--
 src/hashtable.cpp     |  3 ++-
 4 files changed, 39 insertions(+), 4 deletions(-)
 create mode 100644 include/sim_hooks.hpp

diff --git a/include/queue.hpp b/include/queue.hpp
index 476c6b0..ec221ab 100644
--- a/include/queue.hpp
+++ b/include/queue.hpp
@@ -3,6 +3,7 @@
 
 #include <stdint.h>
 #include "packed_array.hpp"
+#include "sim_hooks.hpp"
 
 namespace flbwt
 {
@@ -14,7 +15,7 @@ struct qblock
     flbwt::PackedArray *b;
 };
 
-#define QSIZ 1024
+#define QSIZ FLBWT_TUNABLE(queue_block, 1024)
 
 /**
  * @brief Queue class.
diff --git a/include/sim_hooks.hpp b/include/sim_hooks.hpp
new file mode 100644
index 0000000..d887f7e
--- /dev/null
+++ b/include/sim_hooks.hpp
@@ -0,0 +1,32 @@
+#ifndef FLBWT_SIM_HOOKS_HPP
+#define FLBWT_SIM_HOOKS_HPP
+
+/*
+ * Seams for the deterministic simulator. They exist only when FLBWT_SIM is
+ * defined; otherwise the macros are the shipped values.
+ */
+
+#ifdef FLBWT_SIM
+
+#include <stdint.h>
+
+namespace flbwt
+{
+    // set by the simulator before a run; 0 means "use the shipped value"
+    extern uint64_t sim_table_size;  // number of hash table buckets
+    extern uint64_t sim_table_block; // slack bytes added to each hash table block
+    extern uint64_t sim_queue_block; // elements in one queue block
+    extern uint64_t sim_index_bits;  // lower bound for the bits needed by an index
+}
+
+#define FLBWT_TUNABLE(name, shipped) (flbwt::sim_##name ? flbwt::sim_##name : (shipped))
+#define FLBWT_AT_LEAST(name, natural) (flbwt::sim_##name > (natural) ? flbwt::sim_##name : (natural))
+
+#else
+
+#define FLBWT_TUNABLE(name, shipped) (shipped)
+#define FLBWT_AT_LEAST(name, natural) (natural)
+
+#endif
+
+#endif
diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..da00a69 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -3,6 +3,7 @@
 // #include <time.h>
 #include <stdlib.h>
 #include "flbwt.hpp"
+#include "sim_hooks.hpp"
 #include "utility.hpp"
 #include "induce40bit.hpp"
 #include "induce48bit.hpp"
@@ -149,7 +150,7 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     if (total_substring_count > max_value)
         max_value = total_substring_count;
 
-    uint8_t bits = flbwt::position_of_msb(max_value);
+    uint8_t bits = FLBWT_AT_LEAST(index_bits, flbwt::position_of_msb(max_value));
     uint64_t T1_length = container->num_of_substrings + 1;
     uint64_t k = container->num_of_unique_substrings + 2;
 
@@ -325,7 +326,7 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
         return container;
 
     // Initialize hash table where unique substrings are stored
-    container->hashtable = new HashTable(67777, n);
+    container->hashtable = new HashTable(FLBWT_TUNABLE(table_size, 67777), n);
 
     // The first S* substring is at location T[n] but it is ignored here.
     // The next to last character is always of TYPE_L.
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..7a88308 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -2,11 +2,12 @@
 #include <algorithm>
 #include "hashtable.hpp"
 #include "utility.hpp"
+#include "sim_hooks.hpp"
 
 flbwt::HashTable::HashTable(const uint64_t hash_table_size, const uint64_t n)
 {
     this->HTSIZE = hash_table_size;
-    this->HBSIZE = 512;
+    this->HBSIZE = FLBWT_TUNABLE(table_block, 512);
     this->rest = new uint64_t[this->HTSIZE];
     this->head = new uint64_t[this->HTSIZE];
     std::fill_n(this->rest, this->HTSIZE, 0);
-- 
2.43.0


From ac912b4f257c30b1d17d29190a4e1091f5e4aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 2/7] fix: set_length skipped trailing zero bytes of the length

Lengths such as 256 left the low bytes of the record unwritten, so the
stored length depended on what the heap held before.
---
 src/hashtable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 7a88308..eb0abc0 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -176,7 +176,8 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    // write all the bytes, zero bytes included
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 70311630906480ae2d9fc297db38abca2d20ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 3/7] fix: inputs of one or two bytes crashed the transform

The early return left the container without a hash table, which the next
step dereferenced, and the scan of a one byte input underflowed.
---
 src/flbwt.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index da00a69..4789e37 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -321,10 +321,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(FLBWT_TUNABLE(table_size, 67777), n);
 
@@ -527,7 +523,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (uint64_t i = n - 1; i-- > 0;)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -554,9 +550,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From 0d3d4e37b2f3f48445b059e94ff320c675eaaa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 4/7] fix: short, failed or unsized reads of the input file
 went unnoticed

A FIFO made ftell return -1 and fread overflow an empty buffer; a short
read left the tail of the buffer uninitialised and the transform of it
was written as if nothing had happened. The failure path also leaked the
buffer and the file.
---
 src/flbwt.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 4789e37..51bafa4 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -35,9 +35,14 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
-    rewind(fp);
+    // Only a seekable file has a length that can be read in advance
+    long length = (fseek(fp, 0L, SEEK_END) == 0) ? ftell(fp) : -1;
+    if (length < 0 || fseek(fp, 0L, SEEK_SET) != 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("fseek failed(): Could not get the length of input file");
+    }
+    n = length;
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
 
@@ -47,8 +52,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        free(T);
+        fclose(fp);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 17aa7dfd7b8a1bbcb4d886de58fd22fc0eb9a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 5/7] fix: failed writes of the output file went unnoticed

A full disk or an I/O error, also one reported only when the file is
closed, left a truncated output behind a call that returned normally. The
result also leaked when the output file could not be opened, and the
allocation of the rank could fail after the output had been truncated.
---
 src/flbwt.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 51bafa4..b97b6f7 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -73,12 +73,17 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        if (B != NULL)
+            delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
 
     if (B != NULL && B->BWT != NULL)
     {
         // Write rank of the last character to the first 64 bits
-        uint8_t *rank = new uint8_t[8];
+        uint8_t rank[8];
         rank[0] = (0xff00000000000000 & B->last) >> 56;
         rank[1] = (0x00ff000000000000 & B->last) >> 48;
         rank[2] = (0x0000ff0000000000 & B->last) >> 40;
@@ -88,7 +93,6 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         rank[6] = (0x000000000000ff00 & B->last) >> 8;
         rank[7] = 0x00000000000000ff & B->last;
         fwrite(rank, sizeof(uint8_t), 8, fp);
-        delete[] rank;
 
         // Write other content (BWT)
         if (B->last == 0)
@@ -106,7 +110,10 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         }
     }
 
-    fclose(fp);
+    // The last bytes may reach the disk only when the file is closed
+    bool failed = ferror(fp) != 0;
+    if (fclose(fp) != 0)
+        failed = true;
 
     // Release result resources
     if (B != NULL)
@@ -115,6 +122,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (failed)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From 611bc0293d9e907479a6381e7c7075f8d762a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 6/7] fix: unchecked malloc and realloc results crashed under
 memory exhaustion

They now throw std::bad_alloc as the operator new calls around them do.
---
 src/flbwt.cpp        | 5 +++++
 src/hashtable.cpp    | 3 +++
 src/induce32bit.cpp  | 3 +++
 src/induce40bit.cpp  | 3 +++
 src/induce48bit.cpp  | 3 +++
 src/induce56bit.cpp  | 3 +++
 src/induce64bit.cpp  | 3 +++
 src/packed_array.cpp | 3 +++
 src/queue.cpp        | 5 +++++
 9 files changed, 31 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index b97b6f7..a475aeb 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <algorithm>
 #include <iostream>
 // #include <time.h>
@@ -398,6 +399,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
 {
     // array s will hold hashtable positions of sorted S* substrings
     uint8_t **s = (uint8_t **)malloc((container->num_of_unique_substrings + 2) * sizeof(uint8_t *));
+    if (s == NULL)
+        throw std::bad_alloc();
 
     uint64_t p, i, j, l, m;
     uint8_t *r, *q;
@@ -408,6 +411,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
     uint64_t space_required = 1 + 1 + container->hashtable->calculate_lenlen(p + 1) + (p + 1) + container->hashtable->NAME_BYTES;
     space_required += 1 + 1 + 1 + 1 + container->hashtable->NAME_BYTES;
     r = (uint8_t *)realloc(container->hashtable->buf, container->hashtable->bufsize + space_required);
+    if (r == NULL)
+        throw std::bad_alloc();
     if (r != container->hashtable->buf)
         container->hashtable->buf = r;
     container->hashtable->bufsize += space_required;
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index eb0abc0..e1129b6 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include <algorithm>
 #include "hashtable.hpp"
@@ -89,6 +90,8 @@ uint8_t flbwt::HashTable::insert_string(const uint64_t m, uint8_t *p)
     if ((int64_t)space_required >= (int64_t)this->rest[h] - 12)
     {
         r2 = (uint8_t *)realloc(this->buf, this->bufsize + this->HBSIZE + space_required);
+        if (r2 == NULL)
+            throw std::bad_alloc();
 
         if (r2 != this->buf)
             this->buf = r2;
diff --git a/src/induce32bit.cpp b/src/induce32bit.cpp
index afba1a6..9d70f88 100644
--- a/src/induce32bit.cpp
+++ b/src/induce32bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce32bit.hpp"
 #include "queue.hpp"
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_32bit(int32_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce40bit.cpp b/src/induce40bit.cpp
index da4e17f..0fa6b37 100644
--- a/src/induce40bit.cpp
+++ b/src/induce40bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce40bit.hpp"
 #include "sais40bit.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_40bit(uint32_t *SA_L, int8_t *SA_U, flbwt::
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce48bit.cpp b/src/induce48bit.cpp
index 5d67da7..2055109 100644
--- a/src/induce48bit.cpp
+++ b/src/induce48bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce48bit.hpp"
 #include "sais48bit.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_48bit(uint32_t *SA_L, int16_t *SA_U, flbwt:
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce56bit.cpp b/src/induce56bit.cpp
index c9588f5..d438c4a 100644
--- a/src/induce56bit.cpp
+++ b/src/induce56bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce56bit.hpp"
 #include "sais56bit.hpp"
@@ -174,6 +175,8 @@ flbwt::BWT_result *flbwt::induce_bwt_56bit(uint32_t *SA_L, uint16_t *SA_M, int8_
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce64bit.cpp b/src/induce64bit.cpp
index d59cb3a..142fa13 100644
--- a/src/induce64bit.cpp
+++ b/src/induce64bit.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <iostream>
 #include "induce64bit.hpp"
 #include "queue.hpp"
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_64bit(int64_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/packed_array.cpp b/src/packed_array.cpp
index cdca17d..144bbfa 100644
--- a/src/packed_array.cpp
+++ b/src/packed_array.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <cstdlib>
 #include <stddef.h>
 #include "packed_array.hpp"
@@ -12,6 +13,8 @@ flbwt::PackedArray::PackedArray(uint64_t length, uint8_t integer_bits)
     uint64_t bits_required = length * this->integer_bits;
     uint64_t arr_length = bits_required / 64 + 1;
     this->arr = (uint64_t *)malloc(arr_length * sizeof(uint64_t));
+    if (this->arr == NULL)
+        throw std::bad_alloc();
     this->arr_length = arr_length;
 }
 
diff --git a/src/queue.cpp b/src/queue.cpp
index acf3655..8ec742f 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -1,3 +1,4 @@
+#include <new>
 #include <stddef.h>
 #include <stdlib.h>
 #include "queue.hpp"
@@ -37,6 +38,8 @@ void flbwt::Queue::enqueue(uint64_t x)
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->eb == NULL)
@@ -67,6 +70,8 @@ void flbwt::Queue::enqueue_l(uint64_t x)
     if (this->s_ofs == 0)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->sb == NULL)
-- 
2.43.0


From 4d8e0169874a79c2e9a6d3710584dcbe78c74370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 7/7] fix: a refused queue insertion leaked a block

---
 src/queue.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/queue.cpp b/src/queue.cpp
index 8ec742f..cde11cb 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -37,10 +37,14 @@ void flbwt::Queue::enqueue(uint64_t x)
 
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
+        PackedArray *b = new PackedArray(QSIZ, this->w);
         qb = (qblock *)malloc(sizeof(qblock));
         if (qb == NULL)
+        {
+            delete b;
             throw std::bad_alloc();
-        qb->b = new PackedArray(QSIZ, this->w);
+        }
+        qb->b = b;
 
         if (this->eb == NULL)
         { // no blocks
@@ -69,10 +73,14 @@ void flbwt::Queue::enqueue_l(uint64_t x)
 
     if (this->s_ofs == 0)
     { // current block is full
+        PackedArray *b = new PackedArray(QSIZ, this->w);
         qb = (qblock *)malloc(sizeof(qblock));
         if (qb == NULL)
+        {
+            delete b;
             throw std::bad_alloc();
-        qb->b = new PackedArray(QSIZ, this->w);
+        }
+        qb->b = b;
 
         if (this->sb == NULL)
         { // no block exists
-- 
2.43.0

