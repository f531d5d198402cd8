From fa8db4385458d2d07d91cdf88aaab06e8c387f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 01/47] fix: reject counter changes that overflow a 64-bit
 integer

---
 datastruct/string.go | 3 +++
 redis/string.go      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..8d21296 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -54,6 +54,9 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 		return 0, ErrNotInteger
 	}
 	value = i64 + incrBy
+	if (incrBy > 0 && value < i64) || (incrBy < 0 && value > i64) {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
diff --git a/redis/string.go b/redis/string.go
index 150b931..fdefe40 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -109,6 +110,11 @@ func decrBy(c *Command) (*protocol.Response, error) {
 		return nil, datastruct.ErrNotInteger
 	}
 
+	// the smallest integer has no negation
+	if decrement == math.MinInt64 {
+		return nil, datastruct.ErrNotInteger
+	}
+
 	i64, err := datastruct.IncrBy(c.Values[0], -decrement)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e583c42dc01c6d9b8b3037603652c8e533e083b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 02/47] fix: reject MSET with a missing value

---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index fdefe40..64afbca 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -21,7 +21,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From a33b657b6461a2f380da2aa9f7b2510415e326fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 03/47] fix: MGET reports a key of another type as nil

---
 datastruct/string.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index 8d21296..f48284f 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -82,13 +82,9 @@ func MGet(keys ...string) []interface{} {
 
 	for _, key := range keys {
 		val, err := Get(key)
-		if err == ErrNil {
-			result = append(result, nil)
-			continue
-		}
-
+		// missing, or not a string
 		if err != nil {
-			result = append(result, err)
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 6fa84b76960a4b174f9bd3934c5b9067b1c6f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 04/47] fix: DEL and EXISTS cover every named key

---
 redis/keys.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..7aa5494 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -23,13 +23,14 @@ func exists(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	found := datastruct.Exists(c.Values[0])
-	rsp := protocol.NewResponseWithInteger(0)
-	if found {
-		rsp = protocol.NewResponseWithInteger(1)
+	var cnt int
+	for _, key := range c.Values {
+		if datastruct.Exists(key) {
+			cnt++
+		}
 	}
 
-	return rsp, nil
+	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
 // del .
@@ -38,7 +39,11 @@ func del(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt := datastruct.Del(c.Values[0])
+	var cnt int
+	for _, key := range c.Values {
+		cnt += datastruct.Del(key)
+	}
+
 	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
-- 
2.43.0


From f8af49b122879d1582747c902c3f12c2232c17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 05/47] fix: a malformed KEYS pattern matches nothing instead
 of crashing

---
 datastruct/keys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..09a8b5d 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -60,7 +60,11 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
-- 
2.43.0


From 5c8eefef2f3c74e022a71a0e647cf459608070e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 06/47] fix: TYPE names sets, sorted sets and hashes as clients
 know them

---
 datastruct/consts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..02ee5e4 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,9 +9,9 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
-	KeyTypeSortedSet KeyType = "sortedSet"
-	KeyTypeHashTable KeyType = "hashTable"
+	KeyTypeSet       KeyType = "set"
+	KeyTypeSortedSet KeyType = "zset"
+	KeyTypeHashTable KeyType = "hash"
 )
 
 var (
-- 
2.43.0


From 437d40b3499cfae883c663d45d698ebd6b79f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 07/47] fix: LINDEX reads the key it is given

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 4762e49ee014acbf7b8001d724015d891af6242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:26 +0000
Subject: [PATCH 08/47] fix: LREM leaves an empty list consistent and accepts
 the smallest count

---
 datastruct/list.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..4c054ca 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -215,6 +215,9 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 	// remove last element
 	if prev.next == nil {
 		l.tail = prev
+		if prev == dumbHead {
+			l.tail = nil
+		}
 	}
 
 	l.head = dumbHead.next
@@ -267,6 +270,9 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 	// remove last(head) element
 	if prev.prev == nil {
 		l.head = prev
+		if prev == dumbTail {
+			l.head = nil
+		}
 	}
 
 	l.tail = dumbTail.prev
@@ -550,6 +556,10 @@ func LRem(key string, count int, value string) (n int, err error) {
 	}
 
 	if count < 0 {
+		// also keeps the negation from overflowing
+		if count < -list.length {
+			count = -list.length
+		}
 		return list.LRemCountFromTail(value, -count), nil
 	}
 
-- 
2.43.0


From 795bcff98609d8932b9e33c6c4f246df848e04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 09/47] fix: a list that lost its last element ceases to exist

---
 datastruct/keys.go | 7 +++++++
 datastruct/list.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 09a8b5d..411e44e 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -42,6 +42,13 @@ func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
 	return info, nil
 }
 
+// dropIfEmpty removes the key of a collection which has no elements left
+func dropIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 /*
  * Common Command
  */
diff --git a/datastruct/list.go b/datastruct/list.go
index 4c054ca..05d5a16 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -479,6 +479,7 @@ func LPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	dropIfEmpty(key, list.length)
 	return
 }
 
@@ -521,6 +522,7 @@ func RPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	dropIfEmpty(key, list.length)
 	return
 }
 
@@ -551,6 +553,7 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return 0, err
 	}
 
+	defer func() { dropIfEmpty(key, list.length) }()
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
 	}
-- 
2.43.0


From 877cd4d7a75df1b7d955272d7a907b3e45092e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/47] fix: a hash comes into existence on its first write

---
 datastruct/hash_table.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..5e706bf 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -178,6 +178,13 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
+func storeHashTable(key string, h *hashTable) {
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeHashTable,
+		Value: h,
+	})
+}
+
 func HDel(key, field string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
@@ -227,6 +234,7 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		storeHashTable(key, h)
 		err = nil
 	}
 
@@ -241,6 +249,7 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		storeHashTable(key, h)
 		err = nil
 	}
 
@@ -284,6 +293,7 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		storeHashTable(key, h)
 		err = nil
 	}
 
-- 
2.43.0


From d30512538ef78d7a5e74cd8bcd7fb3c37c76014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 11/47] fix: HDEL removes every named field and counts what it
 removed

---
 datastruct/hash_table.go | 12 +++++++++---
 redis/hash_table.go      |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 5e706bf..4735058 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
@@ -185,13 +185,19 @@ func storeHashTable(key string, h *hashTable) {
 	})
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+
+	dropIfEmpty(key, h.length)
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..41c4bec 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
-- 
2.43.0


From 064fd73e7bd912fee94ec75c22cdbebb38ac3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 12/47] fix: HEXISTS reports an absent field

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 4735058..25772df 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -210,7 +210,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From 89c03e5ff2950f7481fa4a104fa0e46906b015b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 13/47] fix: hash increments count new fields and never
 overflow

---
 datastruct/hash_table.go | 17 +++++++++++++++--
 redis/hash_table.go      |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 25772df..ede0055 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 
 	smap "github.com/yusank/godis/lib/shard_map"
@@ -67,6 +68,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -75,7 +77,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum := i64 + newValue.(int64)
+		if (i > 0 && sum < i64) || (i < 0 && sum > i64) {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
@@ -89,6 +96,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -97,7 +105,12 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return ErrNotFloat, true
 		}
 
-		return i64 + newValue.(float64), false
+		sum := i64 + newValue.(float64)
+		if math.IsInf(sum, 0) || math.IsNaN(sum) {
+			return ErrNotFloat, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index 41c4bec..2963bf3 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -133,7 +134,7 @@ func hIncrByFloat(c *Command) (*protocol.Response, error) {
 	)
 
 	f64, err := strconv.ParseFloat(incrStr, 64)
-	if err != nil {
+	if err != nil || math.IsInf(f64, 0) || math.IsNaN(f64) {
 		return nil, datastruct.ErrNotInteger
 	}
 
-- 
2.43.0


From f5bdf35b104e1bce6219731ef9872bf7e16c1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 14/47] fix: hash values read back with the text they were
 written with

---
 datastruct/hash_table.go | 22 ++++++++++++++++++++++
 util/strconv.go          |  7 +++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index ede0055..ef62a6f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -101,6 +101,9 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 		}
 
 		i64, ok := valueInMap.(float64)
+		if !ok {
+			i64, ok = floatText(valueInMap)
+		}
 		if !ok {
 			return ErrNotFloat, true
 		}
@@ -121,6 +124,25 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	return res.(float64), nil
 }
 
+// floatText reads a float which is kept as the text it was written with, like 1.50
+func floatText(v interface{}) (float64, bool) {
+	s, ok := v.(string)
+	if !ok {
+		return 0, false
+	}
+
+	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
+		return 0, false
+	}
+
+	f, err := strconv.ParseFloat(s, 64)
+	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
+		return 0, false
+	}
+
+	return f, true
+}
+
 func (h *hashTable) keys() []string {
 	return h.table.Keys()
 }
diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..c3fdbee 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -1,6 +1,7 @@
 package util
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -8,14 +9,16 @@ import (
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && !math.IsInf(f64, 0) && !math.IsNaN(f64) && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
+	// any other spelling has to stay as it is, it would not read back the same
+
 	return s
 }
-- 
2.43.0


From 16d6d03ec3e1434d544c4b95b87ff7ae03e4d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 15/47] fix: reject HSET and HMSET with a missing value

---
 redis/hash_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 2963bf3..d9cf536 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -203,7 +203,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -229,7 +229,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From 2b01c592191aaec5bc2ddf2f36376ad111cb5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 16/47] fix: HGETALL on a key of another type is an error

---
 redis/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index d9cf536..d2a3083 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -74,7 +74,7 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
+	if err == datastruct.ErrNil || (err == nil && len(m) == 0) {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
 
-- 
2.43.0


From c42cb2770e7d22bd11266b706a0cc7aa0f824d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 17/47] fix: encode numeric bulk values instead of crashing

---
 protocol/encode.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/protocol/encode.go b/protocol/encode.go
index eb5dccd..a3bc0b2 100644
--- a/protocol/encode.go
+++ b/protocol/encode.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"bytes"
+	"fmt"
 	"strconv"
 
 	"github.com/yusank/godis/util"
@@ -165,7 +166,17 @@ func (ri *ResponseItem) encode(buf *bytes.Buffer) {
 			_, _ = buf.WriteString("$-1\r\n")
 			break
 		}
-		str := ri.Value.(string)
+		var str string
+		switch v := ri.Value.(type) {
+		case string:
+			str = v
+		case int64:
+			str = strconv.FormatInt(v, 10)
+		case float64:
+			str = strconv.FormatFloat(v, 'g', -1, 64)
+		default:
+			str = fmt.Sprint(v)
+		}
 		lnStr := strconv.Itoa(len(str))
 		_, _ = buf.WriteString(util.StringConcat(len(str)+len(lnStr)+5, "$", lnStr, CRLF, str, CRLF))
 	}
-- 
2.43.0


From f57c6031cc51e1a002d67ab559eb64f24ad3283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 18/47] fix: keep line breaks out of simple string and error
 replies

---
 protocol/encode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/encode.go b/protocol/encode.go
index a3bc0b2..8774264 100644
--- a/protocol/encode.go
+++ b/protocol/encode.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/yusank/godis/util"
 )
@@ -146,6 +147,9 @@ func (r *Response) Encode() []byte {
 	return buf.Bytes()
 }
 
+// simple strings and errors end at the first line break
+var lineReplacer = strings.NewReplacer("\r", " ", "\n", " ")
+
 func (ri *ResponseItem) encode(buf *bytes.Buffer) {
 	if buf == nil {
 		return
@@ -153,10 +157,10 @@ func (ri *ResponseItem) encode(buf *bytes.Buffer) {
 
 	switch ri.Type {
 	case TypeSimpleStrings:
-		str := ri.Value.(string)
+		str := lineReplacer.Replace(ri.Value.(string))
 		_, _ = buf.WriteString(util.StringConcat(len(str)+3, "+", str, CRLF))
 	case TypeErrors:
-		str := ri.Value.(error).Error()
+		str := lineReplacer.Replace(ri.Value.(error).Error())
 		_, _ = buf.WriteString(util.StringConcat(len(str)+3, "-", str, CRLF))
 	case TypeIntegers:
 		str := strconv.FormatInt(ri.Value.(int64), 10)
-- 
2.43.0


From b5566e11daa25455c847d2b661c351d0caefcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 19/47] fix: SPOP pops one member by default and keeps the
 member count

---
 datastruct/set.go | 1 +
 redis/set.go      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..4cf87e3 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -45,6 +45,7 @@ func (s *set) sPop(cnt int) []string {
 		}
 
 		result = append(result, key)
+		s.length--
 		cnt--
 		return true, true
 	})
diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From fef12e9c0ae2e794f794a32327895ded7a7d9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 20/47] fix: SMOVE moves a member whole or not at all

---
 datastruct/set.go | 15 ++++++++++++---
 redis/set.go      |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 4cf87e3..e3d708c 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,13 +186,22 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	if !sset.m.Has(value) {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	// add first: nothing is removed when the target is of another type
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	if source != target {
+		sset.sRem(value)
+		dropIfEmpty(source, sset.length)
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
diff --git a/redis/set.go b/redis/set.go
index a8dddce..c8abaee 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -199,7 +199,7 @@ func sMove(c *Command) (*protocol.Response, error) {
 	)
 
 	res, err := datastruct.SMove(source, target, value)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 73ab0dfe283ce7fa1bc92f96f965897b897546b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 21/47] fix: SMEMBERS of a missing key is empty

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index c8abaee..ddcc03d 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -179,7 +179,7 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From dc1da29f3b586dbbdb81644bf583aa4343025121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 22/47] fix: a set that lost its last member ceases to exist

---
 datastruct/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index e3d708c..ee606a7 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -153,6 +153,8 @@ func SRem(key string, values ...string) (int, error) {
 		cnt += s.sRem(value)
 	}
 
+	dropIfEmpty(key, s.length)
+
 	return cnt, nil
 }
 
@@ -371,7 +373,9 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
-	return s.sPop(cnt), nil
+	values := s.sPop(cnt)
+	dropIfEmpty(key, s.length)
+	return values, nil
 }
 
 /*
-- 
2.43.0


From c8a84c9617d290c4216e7ecd8e5d1684f9a157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 23/47] fix: set operations on one key return its members

---
 redis/set.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/redis/set.go b/redis/set.go
index ddcc03d..591969c 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -84,10 +80,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -124,10 +116,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
-- 
2.43.0


From d0f822e033cecbf8bdfc1e6204ef42cf77fb8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 24/47] fix: a missing key is an empty set to the set
 operations

---
 datastruct/set.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index ee606a7..76672cb 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,16 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// loadOperandSet loads an operand of the set operations, a missing key is an empty set
+func loadOperandSet(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -210,7 +220,7 @@ func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
@@ -234,7 +244,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
@@ -264,7 +274,7 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
@@ -288,7 +298,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
@@ -318,7 +328,7 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return nil, err
 		}
@@ -342,7 +352,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadOperandSet(key)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From f879b434326789e5834e313bb1523c1e53719884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 25/47] fix: stored set results are independent of their
 sources and never empty

---
 datastruct/set.go | 50 +++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 76672cb..7a86281 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -120,6 +120,23 @@ func loadOperandSet(key string) (*set, error) {
 	return s, err
 }
 
+// storeSet replaces whatever is at key by a copy of s and returns its size.
+// An empty set is not stored.
+func storeSet(key string, s *set) int {
+	result := newSet()
+	if s != nil {
+		result = sUnion(s)
+	}
+
+	defaultCache.keys.Set(key, &KeyInfo{
+		Type:  KeyTypeSet,
+		Value: result,
+	})
+	dropIfEmpty(key, result.length)
+
+	return result.length
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -257,16 +274,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		result = sDiff(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SInter 交集
@@ -311,16 +319,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		result = sInter(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 // SUnion 并集
@@ -365,16 +364,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		result = sUnion(result, s)
 	}
 
-	if result == nil {
-		result = newSet()
-	}
-
-	defaultCache.keys.Set(storeKey, &KeyInfo{
-		Type:  KeyTypeSet,
-		Value: result,
-	})
-
-	return result.length, nil
+	return storeSet(storeKey, result), nil
 }
 
 func SPop(key string, cnt int) ([]string, error) {
-- 
2.43.0


From a8ad6c49df983187a6ce298b5b2d37f0261c891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 26/47] fix: skip list deletion finds its node at every level

---
 datastruct/sorted_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..4e6cbab 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -243,6 +243,8 @@ func (zsl *zSkipList) deleteNode(node *zSkipListNode, update []*zSkipListNode) {
 	// 被删除节点的下一个节点的上一个节点指向被删除节点的上一个节点
 	if node.levels[0].forward != nil {
 		node.levels[0].forward.backward = node.backward
+	} else {
+		zsl.tail = node.backward
 	}
 
 	// level 可能需要减少
@@ -261,7 +263,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From 79fb95afa015c7b325de3dcffb489ff4f10d5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 27/47] fix: ZPOPMIN and ZPOPMAX forget the members they pop
 and stop when none is left

---
 datastruct/sorted_set.go | 6 ++++--
 redis/sorted_set.go      | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 4e6cbab..d938c68 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -785,13 +785,14 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(1)
 		if node == nil {
 			return result, nil
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
@@ -807,13 +808,14 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
 		}
 
 		zs.zsl.delete(node.score, node.value, nil)
+		zs.m.Delete(node.value)
 		result = append(result,
 			node.value,
 			strconv.FormatFloat(node.score, 'g', -1, 64))
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..42a2785 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -273,7 +273,7 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
+	if err == datastruct.ErrNil || (err == nil && len(values) == 0) {
 		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
@@ -304,7 +304,7 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
+	if err == datastruct.ErrNil || (err == nil && len(values) == 0) {
 		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
-- 
2.43.0


From 90ab7d927a83f72f313262303ae6f74da8fbecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 28/47] fix: a sorted set that lost its last member ceases to
 exist

---
 datastruct/sorted_set.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index d938c68..f832b75 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -616,6 +616,8 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		}
 	}
 
+	// with xx nothing may have been added to a new set
+	dropIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -666,6 +668,7 @@ func ZRem(key string, values ...string) (int, error) {
 		cnt++
 	}
 
+	dropIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -798,6 +801,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	dropIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
@@ -821,6 +825,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	dropIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
-- 
2.43.0


From 1f766d81b1f3eadcc21a239ad267d18c90bb5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 29/47] fix: ZRANK counts from zero

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index f832b75..6bd6490 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -647,7 +647,7 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From 6bb2c56ca88519a6fe48569a91bf46741844eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 30/47] fix: ZREVRANGE counts positions from the highest score

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 6bd6490..00b006b 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -457,7 +457,7 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From a60b812c9110b36b68c2ec117fdc8c11b1c04cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 31/47] fix: score ranges select exactly the members inside the
 interval

---
 datastruct/sorted_set.go | 78 ++++++----------------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 00b006b..211ae47 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -310,90 +310,45 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
+	if minRank > maxRank {
+		return 0
 	}
 
 	return maxRank - minRank + 1
 }
 
-// return -1 if score is inf
+// rank of the first element which is not below the lower bound
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// rank of the last element which is not above the upper bound
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -476,21 +431,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 16bd44f6432c17a81065d14d4d107d280327b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 32/47] fix: reject scores and bounds that are not numbers, and
 leftover ZADD arguments

---
 datastruct/sorted_set.go |  2 +-
 redis/sorted_set.go      | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 211ae47..87c73c2 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -790,7 +790,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 42a2785..db09edc 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -20,9 +21,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		key     = c.Values[0]
 		members = make([]*datastruct.ZSetMember, 0)
 		flag    int
+		i       = 1
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	for i < len(c.Values)-1 {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -36,7 +38,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -48,6 +50,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if i < len(c.Values) || len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
@@ -156,7 +162,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From d175b82c8b7bbfb1585c144f5ebfbe86c0d6aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 33/47] fix: an increment never turns a score into NaN

---
 datastruct/sorted_set.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 87c73c2..2586bf4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -498,6 +498,24 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 	return nil
 }
 
+// incrToNaN tells if incrementing the members one after another adds up opposite infinities
+func (zs *zSet) incrToNaN(members []*ZSetMember) bool {
+	scores := make(map[string]float64)
+	for _, m := range members {
+		score, ok := scores[m.Value]
+		if de := zs.loadDictEntry(m.Value); !ok && de != nil {
+			score = *(de.getValue().(*float64))
+		}
+
+		scores[m.Value] = score + m.Score
+		if math.IsNaN(scores[m.Value]) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (zs *zSet) loadDictEntry(key string) *dictEntry {
 	v, ok := zs.m.Get(key)
 	if !ok {
@@ -553,6 +571,10 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		})
 	}
 
+	if flag&ZAddInIncr != 0 && zs.incrToNaN(members) {
+		return 0, ErrNotFloat
+	}
+
 	var cnt int
 	for _, m := range members {
 		if node := zs.zAdd(m.Score, m.Value, flag); node != nil {
@@ -658,6 +680,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
+	if zs.incrToNaN([]*ZSetMember{{Score: score, Value: value}}) {
+		return 0, ErrNotFloat
+	}
+
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
 		return 0, ErrNil
-- 
2.43.0


From 4407447435a570fd0c9c8e169ac5cdb5d2fca52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 34/47] fix: ZINCR by zero replies with the score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 2586bf4..fc1fef6 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -686,7 +686,8 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
-		return 0, ErrNil
+		// unchanged
+		return ZScore(key, value)
 	}
 
 	return node.score, nil
-- 
2.43.0


From 471932ffbd8b4e6e4e5f210b73cc8de9841ceb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 35/47] fix: malformed range arguments are errors whether or
 not the key exists

---
 datastruct/sorted_set.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index fc1fef6..387d72a 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -648,17 +648,17 @@ func ZCard(key string) (int, error) {
 }
 
 func ZCount(key, minStr, maxStr string) (int, error) {
-	zs, err := loadAndCheckZSet(key, true)
+	minScore, minOpen, err := handleFloatScoreStr(minStr)
 	if err != nil {
 		return 0, err
 	}
 
-	minScore, minOpen, err := handleFloatScoreStr(minStr)
+	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
 	if err != nil {
 		return 0, err
 	}
 
-	maxScore, maxOpen, err := handleFloatScoreStr(maxStr)
+	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return 0, err
 	}
@@ -696,11 +696,6 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 // ZRange not support limit for now
 // todo support by lex flag
 func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
-	zs, err := loadAndCheckZSet(key, true)
-	if err != nil {
-		return nil, err
-	}
-
 	var withScores = flag&ZRangeInWithScores != 0
 
 	if flag&ZRangeInByScore != 0 {
@@ -715,6 +710,11 @@ func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
 			return nil, err1
 		}
 
+		zs, err1 := loadAndCheckZSet(key, true)
+		if err1 != nil {
+			return nil, err1
+		}
+
 		return zs.zsl.zRangeByScore(minScore, minOpen, maxScore, maxOpen, withScores), nil
 	}
 
@@ -728,15 +728,15 @@ func ZRange(key string, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
-	return zs.zsl.zRange(start, stop, withScores), nil
-}
-
-func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	zs, err := loadAndCheckZSet(key, true)
 	if err != nil {
 		return nil, err
 	}
 
+	return zs.zsl.zRange(start, stop, withScores), nil
+}
+
+func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 	var withScores = flag&ZRangeInWithScores != 0
 
 	start, err := strconv.Atoi(minStr)
@@ -749,6 +749,11 @@ func ZRevRange(key, minStr, maxStr string, flag int) ([]string, error) {
 		return nil, ErrNotInteger
 	}
 
+	zs, err := loadAndCheckZSet(key, true)
+	if err != nil {
+		return nil, err
+	}
+
 	return zs.zsl.zRevRange(start, stop, withScores), nil
 }
 
-- 
2.43.0


From 3e5fbed355aa7cdeb74688900b5e85fe6e4dc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 36/47] fix: KEYS matches whole keys exactly ('?' and classes
 match one character, 'a*a' does not match 'a')

---
 datastruct/keys.go | 93 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 90 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 411e44e..bae4954 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,7 +3,11 @@ package datastruct
 // keys file put functions for key operation
 
 import (
-	"github.com/yusank/glob"
+	"errors"
+	"fmt"
+	"regexp"
+	"strings"
+	"unicode/utf8"
 
 	smap "github.com/yusank/godis/lib/shard_map"
 )
@@ -66,14 +70,97 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
+var errBadPattern = errors.New("bad pattern")
+
+// compilePattern translates a glob pattern into an expression which matches whole keys:
+// '*' any sequence, '?' any character, '[abc]', '[a-c]' and '[!a-c]' one character in (not in) the class,
+// '{a,b}' either of the alternatives, '\\x' the character x.
+func compilePattern(pattern string) (*regexp.Regexp, error) {
+	var (
+		rs    = []rune(validText(pattern))
+		sb    strings.Builder
+		depth int
+	)
+
+	sb.WriteString(`(?s)\A(?:`)
+	for i := 0; i < len(rs); i++ {
+		switch c := rs[i]; {
+		case c == '*':
+			sb.WriteString(".*")
+		case c == '?':
+			sb.WriteString(".")
+		case c == '\\':
+			i++
+			if i == len(rs) {
+				return nil, errBadPattern
+			}
+			fmt.Fprintf(&sb, `\x{%x}`, rs[i])
+		case c == '[':
+			sb.WriteString("[")
+			i++
+			if i < len(rs) && rs[i] == '!' {
+				sb.WriteString("^")
+				i++
+			}
+			// an empty or unterminated class does not compile
+			for ; i < len(rs) && rs[i] != ']'; i++ {
+				if rs[i] == '\\' && i+1 < len(rs) {
+					i++
+				}
+				fmt.Fprintf(&sb, `\x{%x}`, rs[i])
+				if i+2 < len(rs) && rs[i+1] == '-' && rs[i+2] != ']' {
+					fmt.Fprintf(&sb, `-\x{%x}`, rs[i+2])
+					i += 2
+				}
+			}
+			if i == len(rs) {
+				return nil, errBadPattern
+			}
+			sb.WriteString("]")
+		case c == '{':
+			depth++
+			sb.WriteString("(?:")
+		case c == '}' && depth > 0:
+			depth--
+			sb.WriteString(")")
+		case c == ',' && depth > 0:
+			sb.WriteString("|")
+		default:
+			fmt.Fprintf(&sb, `\x{%x}`, c)
+		}
+	}
+	sb.WriteString(`)\z`)
+
+	return regexp.Compile(sb.String())
+}
+
+// validText replaces every byte which is not part of a UTF-8 sequence by a character of its own
+func validText(s string) string {
+	if utf8.ValidString(s) {
+		return s
+	}
+
+	var sb strings.Builder
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+		if r == utf8.RuneError && n == 1 {
+			r = utf8.MaxRune - 0xff + rune(s[0])
+		}
+		sb.WriteRune(r)
+		s = s[n:]
+	}
+
+	return sb.String()
+}
+
 func Keys(pattern string) (keys []string) {
-	g, err := glob.Compile(pattern)
+	re, err := compilePattern(pattern)
 	if err != nil {
 		return nil
 	}
 
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-		if g.Match(key) {
+		if re.MatchString(validText(key)) {
 			keys = append(keys, key)
 		}
 		return true
-- 
2.43.0


From 747cc774f2877834a7dd88f76d6f79fcd127e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 37/47] fix: malformed lines and lengths are decode errors
 instead of panics or made-up requests

---
 protocol/decode.go | 58 +++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..6ded65a 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -108,7 +109,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 
 	if desc == descriptionArrays {
 		// won't sava array element
-		err1 := rec.readArray(r, length)
+		err1 := rec.readArray(r, length, 1)
 		if err1 != nil {
 			log.Println("read bulk str err:", err1)
 			return nil, err1
@@ -119,7 +120,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || !bytes.HasSuffix(line, []byte(CRLF)) {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -129,7 +130,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -144,26 +145,34 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// maxLength is the longest bulk string or array a request may announce
+const maxLength = 512 << 20
+
+// readBulkOrArrayLength reads the length of a line which ends with \r\n
+func readBulkOrArrayLength(line []byte) (int, error) {
+	digits := line[1 : len(line)-CRLFLen]
+	if len(digits) == 0 {
+		return 0, fmt.Errorf("invalid length")
 	}
 
 	var (
 		ln int
 	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	for _, d := range digits {
+		if d < '0' || d > '9' {
+			return 0, fmt.Errorf("invalid length")
+		}
+
+		ln = (ln * 10) + int(d-'0')
+		if ln > maxLength {
+			return 0, fmt.Errorf("invalid length")
+		}
 	}
 
-	return ln
+	return ln, nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
-	if ln < 0 {
-		return fmt.Errorf("invalid length")
-	}
-
 	val := make([]byte, ln+2)
 	_, err := rr.Read(val)
 	if err != nil {
@@ -176,25 +185,32 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 	return nil
 }
 
-func (r *Receive) readArray(rr Reader, ln int) error {
+// maxDepth is how deep arrays may be nested
+const maxDepth = 128
+
+func (r *Receive) readArray(rr Reader, ln, depth int) error {
+	if depth > maxDepth {
+		return fmt.Errorf("too many nested arrays")
+	}
+
 	for i := 0; i < ln; i++ {
 		line, err := rr.ReadBytes('\n')
 		if err != nil {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
 		}
 
+		if desc == descriptionArrays {
+			err = r.readArray(rr, length, depth+1)
+			if err != nil {
+				return err
+			}
+		}
+
 		if desc == DescriptionBulkStrings {
 			err = r.readBulkStrings(rr, length)
 			if err != nil {
-- 
2.43.0


From a8c34a0e760ab1626b5013974e4885e1f80ad7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 38/47] fix: a bulk string is read completely, however the
 reader splits it, and must end with CRLF

---
 protocol/decode.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 6ded65a..b1664f4 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -173,14 +173,20 @@ func readBulkOrArrayLength(line []byte) (int, error) {
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
-	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	buf := new(bytes.Buffer)
+	// grows only as the bytes arrive, whatever the announced length
+	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
 	if err != nil {
 		return err
 	}
 
+	val := buf.String()
+	if val[ln:] != CRLF {
+		return fmt.Errorf("unsupported protocol")
+	}
+
 	// trim last \r\n
-	r.append(string(val[:ln]), string(val))
+	r.append(val[:ln], val)
 
 	return nil
 }
-- 
2.43.0


From 9d5e21c8151973ea4f7dfb5c82244088a7d37c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 39/47] fix: an inline PING is recorded once and is not an
 array element

---
 protocol/decode.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index b1664f4..03457bf 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -93,6 +93,11 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 		return nil, err
 	}
 
+	if string(b) == "PING\r\n" {
+		rec.append("PING", "PING\r\n")
+		return rec, nil
+	}
+
 	length, desc, err := rec.decodeSingleLine(b)
 	if err != nil {
 		log.Println("init message err:", err)
@@ -135,10 +140,6 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
-		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
-			return 0, DescriptionSimpleStrings, nil
-		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
 	}
 
-- 
2.43.0


From f0eea691bd37146f55c100bb76ed56231db27832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 40/47] fix: the asynchronous reader ends at the first error

---
 protocol/decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 03457bf..d270d3d 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -71,11 +71,11 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 			if err != nil {
 				ar.ErrorChan <- err
 
-				if errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed) {
-					return
+				if !errors.Is(err, io.EOF) && !errors.Is(err, net.ErrClosed) {
+					log.Println(err)
 				}
-				log.Println(err)
-				continue
+				// what follows is out of step with the protocol or will never come
+				return
 			}
 
 			ar.ReceiveChan <- rec
-- 
2.43.0


From 104732da33de624951f36d2cbe700695532cc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 41/47] fix: stopping answers every accepted request, refuses
 new ones and completes; queueing respects the request timeout

---
 event/event_pool.go | 47 +++++++++++++++++++++++++++++++++++++--------
 event/handler.go    |  4 +++-
 event/worker.go     | 28 +++++++--------------------
 3 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..858464a 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -1,34 +1,65 @@
 package event
 
 import (
+	"context"
+	"errors"
 	"sync"
 )
 
+// ErrStopped is the answer to a request which arrives when the event pool is stopping or stopped
+var ErrStopped = errors.New("ERR server is shutting down")
+
 type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+	stopOnce  sync.Once
+	stopChan  chan struct{}
+	// addLock is held shared while adding, so that eventChan is closed when nobody sends on it
+	addLock sync.RWMutex
 }
 
 func NewEventPool() *EventPool {
 	ep := &EventPool{
 		eventChan: make(chan *Event, 1),
 		wg:        new(sync.WaitGroup),
+		stopChan:  make(chan struct{}),
 	}
 
 	ep.startWorker(1)
 	return ep
 }
 
-func (ep *EventPool) AddEvent(e *Event) {
-	ep.eventChan <- e
+// AddEvent queues the event, it returns an error if the pool is stopped or ctx is done before there is room for it
+func (ep *EventPool) AddEvent(ctx context.Context, e *Event) error {
+	ep.addLock.RLock()
+	defer ep.addLock.RUnlock()
+
+	select {
+	case <-ep.stopChan:
+		return ErrStopped
+	default:
+	}
+
+	select {
+	case ep.eventChan <- e:
+		return nil
+	case <-ep.stopChan:
+		return ErrStopped
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
+// Stop refuses new events and returns when all the queued ones are handled
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
-	}
+	ep.stopOnce.Do(func() {
+		close(ep.stopChan)
+
+		ep.addLock.Lock()
+		close(ep.eventChan)
+		ep.addLock.Unlock()
+	})
 
 	ep.wg.Wait()
 }
@@ -56,8 +87,8 @@ func SetGlobalEventPool(ep *EventPool) {
 	globalEventPool = ep
 }
 
-func AddEvent(e *Event) {
-	globalEventPool.AddEvent(e)
+func AddEvent(ctx context.Context, e *Event) error {
+	return globalEventPool.AddEvent(ctx, e)
 }
 
 func Stop() {
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..cabd852 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -33,7 +33,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 
 	// event handler handle event one by one
 	e := NewEvent(cmd)
-	AddEvent(e)
+	if err := AddEvent(ctx, e); err != nil {
+		return protocol.NewResponseWithError(err).Encode()
+	}
 
 	// wait for result or context timeout
 	var rsp *protocol.Response
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..7362289 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	// until the channel is closed and everything in it is handled
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From 77281b44ced555ef5c2247192dd43c44a0405045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 42/47] fix: v2 server answers every request in order however
 its bytes arrive

---
 server/v2/server.go | 90 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 8 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..eb2a1fa 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -3,7 +3,10 @@ package v2
 import (
 	"bytes"
 	"context"
+	"errors"
+	"io"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/panjf2000/gnet"
@@ -41,27 +44,98 @@ func (s *Server) Stop() {
 	}
 }
 
+// session is what the server keeps of a connection between packets
+type session struct {
+	// bytes of a request which is not complete yet, only used by the event loop of the connection
+	pending []byte
+
+	lock    sync.Mutex
+	queue   []*protocol.Receive // complete requests which are not handled yet
+	running bool                // whether a task of the pool is handling the queue
+	broken  bool                // the stream is out of step with the protocol: close when the queue is handled
+}
+
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	c.SetContext(new(session))
+	return
+}
+
 func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+	ss, ok := c.Context().(*session)
+	if !ok || !ss.receive(frame) {
+		return
+	}
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
+	handle := func() { ss.handle(c) }
+	if err := s.pool.Submit(handle); err != nil {
+		go handle()
+	}
+
+	return
+}
+
+// receive queues the requests completed by frame, it returns whether a task has to be started to handle them
+func (ss *session) receive(frame []byte) bool {
+	ss.lock.Lock()
+	defer ss.lock.Unlock()
+	if ss.broken {
+		return false
+	}
+
+	ss.pending = append(ss.pending, frame...)
+	buf := bytes.NewBuffer(ss.pending)
+	for buf.Len() > 0 {
+		rest := buf.Bytes()
 		rec, err := protocol.DecodeFromReader(buf)
+		if errors.Is(err, io.EOF) {
+			// wait for the next packet
+			buf = bytes.NewBuffer(rest)
+			break
+		}
+
 		if err != nil {
 			log.Println(err)
+			ss.broken = true
+			break
+		}
+
+		ss.queue = append(ss.queue, rec)
+	}
+	ss.pending = append([]byte(nil), buf.Bytes()...)
+
+	start := !ss.running && (ss.broken || len(ss.queue) > 0)
+	if start {
+		ss.running = true
+	}
+
+	return start
+}
+
+// handle handles the queue until it is empty, only one task of a connection does so at a time
+func (ss *session) handle(c gnet.Conn) {
+	for {
+		ss.lock.Lock()
+		if len(ss.queue) == 0 {
+			ss.running = false
+			broken := ss.broken
+			ss.lock.Unlock()
+			if broken {
+				_ = c.Close()
+			}
 			return
 		}
 
+		rec := ss.queue[0]
+		ss.queue = ss.queue[1:]
+		ss.lock.Unlock()
+
 		reply := event.HandleRequest(rec)
 		if len(reply) == 0 {
-			return
+			continue
 		}
 
 		_ = c.AsyncWrite(reply)
-	})
-
-	return
+	}
 }
 
 func (s *Server) OnShutdown(srv gnet.Server) {
-- 
2.43.0


From 5c351a6800e312557105df0c168f17208bdf07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 43/47] fix: v1 server survives disconnects and stops in any
 state

---
 server/v1/server.go | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/server/v1/server.go b/server/v1/server.go
index 4c64bc4..38bf03d 100644
--- a/server/v1/server.go
+++ b/server/v1/server.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/yusank/godis/event"
 	"github.com/yusank/godis/protocol"
@@ -21,16 +22,20 @@ type Server struct {
 	addr     string
 	ctx      context.Context
 	cancel   context.CancelFunc
+	lock     sync.Mutex // guards listener and stopped
 	listener net.Listener
+	stopped  bool
 	wg       *sync.WaitGroup
 }
 
 // NewServer return new Server
 func NewServer() *Server {
-	return &Server{
+	s := &Server{
 		wg: new(sync.WaitGroup),
 	}
+	s.ctx, s.cancel = context.WithCancel(context.Background())
 
+	return s
 }
 
 // Start a new Server
@@ -38,9 +43,6 @@ func (s *Server) Start(addr string) error {
 	// addr
 	s.addr = strings.TrimPrefix(addr, "tcp://")
 
-	// ctx
-	s.ctx, s.cancel = context.WithCancel(context.Background())
-
 	// listen
 	l, err := net.Listen("tcp", s.addr)
 	if err != nil {
@@ -48,7 +50,13 @@ func (s *Server) Start(addr string) error {
 		return err
 	}
 	log.Println("listen: ", l.Addr())
+
+	s.lock.Lock()
 	s.listener = l
+	if s.stopped {
+		_ = l.Close()
+	}
+	s.lock.Unlock()
 
 	// wait
 	s.handleListener()
@@ -58,9 +66,12 @@ func (s *Server) Start(addr string) error {
 // Stop the Server
 func (s *Server) Stop() {
 	// stop accept new connection
+	s.lock.Lock()
+	s.stopped = true
 	if s.listener != nil {
 		_ = s.listener.Close()
 	}
+	s.lock.Unlock()
 	// stop handle new request from old connection
 	event.Stop()
 	// quit old connection loop
@@ -92,16 +103,27 @@ func (s *Server) handleListener() {
 func (s *Server) handleConn(conn net.Conn) {
 	reader := bufio.NewReader(conn)
 	ar := protocol.ReceiveDataAsync(reader)
+
+	// a reply which the client does not read must not hold up the stop
+	closed := make(chan struct{})
+	go func() {
+		select {
+		case <-s.ctx.Done():
+			_ = conn.SetWriteDeadline(time.Now().Add(time.Second))
+		case <-closed:
+		}
+	}()
 loop:
 	for {
 		// ctx
 		select {
 		case <-s.ctx.Done():
 			break loop
-		case <-ar.ErrorChan:
-			//log.Println("handle err:", err)
-			break loop
-		case rec := <-ar.ReceiveChan:
+		case rec, ok := <-ar.ReceiveChan:
+			if !ok {
+				break loop
+			}
+
 			reply := event.HandleRequest(rec)
 			if len(reply) == 0 {
 				continue
@@ -115,6 +137,10 @@ loop:
 		}
 	}
 
+	close(closed)
 	_ = conn.Close()
+	// let the reader end
+	for range ar.ReceiveChan {
+	}
 	s.wg.Done()
 }
-- 
2.43.0


From 992d601fb8330f167b10a5b67787236769de78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 44/47] fix: the command generator names a handler without
 comment by its function and reads every handler

---
 cmd/gen_redis_cmd/main.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 9251e3b..71460c9 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -65,30 +65,31 @@ func readAndParseFile(fp string) ([]KV, error) {
 				FuncName: fName,
 			}
 
-			if lastLine != "" {
-				kv.CmdName = strings.ToLower(
-					strings.TrimSpace(
-						strings.TrimPrefix(
-							strings.TrimSuffix(lastLine, "."),
-							"//"),
-					),
+			if strings.HasPrefix(lastLine, "//") {
+				comment := strings.TrimSpace(
+					strings.TrimPrefix(
+						strings.TrimSuffix(lastLine, "."),
+						"//"),
 				)
+				if comment != "" {
+					kv.CmdName = strings.ToLower(comment)
+				}
 			}
 
 			kvs = append(kvs, kv)
 		}
 		lastLine = strings.TrimSpace(scanner.Text())
+	}
 
-		if err != nil {
-			return nil, err
-		}
+	if err = scanner.Err(); err != nil {
+		return nil, err
 	}
 
 	return kvs, nil
 }
 
 func writeFile(name string, kvs []KV) error {
-	name = strings.Replace(name, ".go", generatedFileSuffix, 1)
+	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
 	if err != nil {
 		return err
@@ -124,7 +125,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`func\s+([A-Za-z]+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+(\w+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 0c03824f7c85233cca28af8b12794383e3c0d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 45/47] fix: inserting a sorted set node of the greatest height
 does not read past the ranks

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 387d72a..b9060ad 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -135,7 +135,7 @@ func (zsl *zSkipList) insert(score float64, value string) *zSkipListNode {
 	var (
 		update   = make([]*zSkipListNode, ZSkipListMaxLevel) // 记录更新
 		x        *zSkipListNode
-		rank     = make([]uint, ZSkipListMaxLevel)
+		rank     = make([]uint, ZSkipListMaxLevel+1) // rank[i+1] is read at the highest level, too
 		i, level int
 	)
 
-- 
2.43.0


From 9d7bf431baa5cce75fcb46954dc41c8d35921da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 46/47] fix: a server which is told to stop while it starts
 stops

---
 server/v2/server.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/server/v2/server.go b/server/v2/server.go
index eb2a1fa..ec9402a 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -20,6 +20,10 @@ type Server struct {
 	*gnet.EventServer
 	pool *goroutine.Pool
 	addr string
+
+	lock    sync.Mutex    // guards addr, stopped and done
+	stopped bool          // whether Stop was called
+	done    chan struct{} // closed when Start returns, nil before Start
 }
 
 func NewServer(p *goroutine.Pool) *Server {
@@ -30,7 +34,17 @@ func NewServer(p *goroutine.Pool) *Server {
 }
 
 func (s *Server) Start(addr string) error {
+	s.lock.Lock()
+	if s.stopped {
+		s.lock.Unlock()
+		return nil
+	}
 	s.addr = addr
+	done := make(chan struct{})
+	s.done = done
+	s.lock.Unlock()
+	defer close(done)
+
 	log.Println("listen: ", addr)
 	return gnet.Serve(s, addr, gnet.WithMulticore(true), gnet.WithReusePort(true))
 }
@@ -39,8 +53,30 @@ func (s *Server) Stop() {
 	log.Println("graceful shutting down...")
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*5)
 	defer cancel()
-	if err := gnet.Stop(ctx, s.addr); err != nil {
-		log.Println("stop with err:", err)
+
+	s.lock.Lock()
+	s.stopped = true
+	addr, done := s.addr, s.done
+	s.lock.Unlock()
+	if done == nil {
+		return
+	}
+
+	for {
+		err := gnet.Stop(ctx, addr)
+		if err == nil {
+			return
+		}
+
+		// gnet does not know the server until its event loops run
+		select {
+		case <-done:
+			return
+		case <-ctx.Done():
+			log.Println("stop with err:", err)
+			return
+		case <-time.After(time.Millisecond * 10):
+		}
 	}
 }
 
-- 
2.43.0


From a68320f7964d288ff20c4d49728d3a07759e3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:52 +0000
Subject: [PATCH 47/47] fix: the prepared data of a debug build is in place
 before the server starts

---
 cmd/server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..d539a03 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,7 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0

