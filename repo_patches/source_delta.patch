From 84836f38f6e21a1c1c97c7dc7493e6fcae9b5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 01/41] fix: LINDEX looked up the index instead of the key

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 98d47a4a4ce3bf0b403efe14740c78c95c4ae72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 02/41] fix: LREM left head/tail on the dummy node when it
 removed every element

---
 datastruct/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..0857d80 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -222,6 +222,8 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
+	} else {
+		l.tail = nil
 	}
 	l.length -= cnt
 	return
@@ -274,6 +276,8 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
+	} else {
+		l.head = nil
 	}
 
 	l.length -= cnt
-- 
2.43.0


From ff4ef126320267baef0f8e4ca007deedbb28d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 03/41] fix: LREM with the smallest int as count removed
 nothing

---
 datastruct/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 0857d80..7a02b53 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -554,6 +554,10 @@ func LRem(key string, count int, value string) (n int, err error) {
 	}
 
 	if count < 0 {
+		if count < -list.length {
+			// -count overflows for the smallest int
+			count = -list.length
+		}
 		return list.LRemCountFromTail(value, -count), nil
 	}
 
-- 
2.43.0


From 37ee7148bbae0929e7883b941bd76a4a14e20c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 04/41] fix: INCRBY and DECRBY wrapped around on overflow

---
 datastruct/string.go | 4 ++++
 redis/string.go      | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..315135d 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -53,6 +54,9 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
+	if (incrBy > 0 && i64 > math.MaxInt64-incrBy) || (incrBy < 0 && i64 < math.MinInt64-incrBy) {
+		return 0, ErrNotInteger
+	}
 	value = i64 + incrBy
 	info.Value = strconv.FormatInt(value, 10)
 
diff --git a/redis/string.go b/redis/string.go
index 150b931..fdefe40 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -109,6 +110,11 @@ func decrBy(c *Command) (*protocol.Response, error) {
 		return nil, datastruct.ErrNotInteger
 	}
 
+	// the smallest integer has no negation
+	if decrement == math.MinInt64 {
+		return nil, datastruct.ErrNotInteger
+	}
+
 	i64, err := datastruct.IncrBy(c.Values[0], -decrement)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 3332bf460858be7ae1ed685a816f9d1fe4f4ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 05/41] fix: MSET accepted a missing value and ignored the
 unpaired key

---
 redis/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/string.go b/redis/string.go
index fdefe40..64afbca 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -21,7 +21,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From b4ef6617008c693425d3e287f23d587158f79a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 06/41] fix: MGET of a key of another kind crashed the server

---
 datastruct/string.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index 315135d..a1e251a 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -83,13 +83,9 @@ func MGet(keys ...string) []interface{} {
 
 	for _, key := range keys {
 		val, err := Get(key)
-		if err == ErrNil {
-			result = append(result, nil)
-			continue
-		}
-
 		if err != nil {
-			result = append(result, err)
+			// not found or not a string
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 4cd0f6bb3a271e5ffc2915f48089f65cefed7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 07/41] fix: HDEL counted absent fields instead of removed ones

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..aa04cb8 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
-- 
2.43.0


From e428f0494889e8d526ef5ec101c4f17fcc74db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 08/41] fix: HEXISTS replied 1 for an absent field

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index aa04cb8..4ae489b 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -197,7 +197,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From cd52d5657deb39763f59401965af135d56963275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 09/41] fix: HSET, HMSET, HSETNX and the HINCRBY forms never
 stored a new hash

---
 datastruct/hash_table.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 4ae489b..be2586f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -227,6 +227,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -241,6 +245,10 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -284,6 +292,10 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
-- 
2.43.0


From a1ea91425554b53fd1cba9915aec34222d1198c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 10/41] fix: fields created by HINCRBY and HINCRBYFLOAT were
 not counted

---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index be2586f..e054d39 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -89,6 +90,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From f90abcc5577c85b603e85eddd3ddd8c4d7ebfcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 11/41] fix: HINCRBY wrapped around on overflow

---
 datastruct/hash_table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index e054d39..bca87c9 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,7 @@
 package datastruct
 
 import (
+	"math"
 	"strconv"
 
 	smap "github.com/yusank/godis/lib/shard_map"
@@ -76,6 +77,10 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
+		if (i > 0 && i64 > math.MaxInt64-i) || (i < 0 && i64 < math.MinInt64-i) {
+			return ErrNotInteger, true
+		}
+
 		return i64 + newValue.(int64), false
 	})
 
-- 
2.43.0


From 4455533df3c76a0555944bda58dd28f62baa622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 12/41] fix: HGETALL of a key of another kind replied nil
 instead of an error

---
 redis/hash_table.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..50ba1df 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -73,12 +73,12 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(m) == 0 {
+		return protocol.NewResponseWithNilBulk(), nil
 	}
 
 	var (
-- 
2.43.0


From 1b19de997258285a2494eade3450f35e40817d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 13/41] fix: HGETALL crashed the server when a value looked
 like a number

---
 redis/hash_table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 50ba1df..573d13e 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -88,7 +88,14 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		switch vv := v.(type) {
+		case int64:
+			values[i+1] = strconv.FormatInt(vv, 10)
+		case float64:
+			values[i+1] = strconv.FormatFloat(vv, 'g', -1, 64)
+		default:
+			values[i+1] = v
+		}
 		i += 2
 	}
 
-- 
2.43.0


From f8391ff23e55452d34fa568849e4638577e05c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 14/41] fix: hash values that parse as numbers did not come
 back byte for byte

---
 util/strconv.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..f046d3e 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -6,14 +6,15 @@ import (
 
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
 func ConvertToValidValue(s string) interface{} {
+	// only convert when formatting gives the same bytes back
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
-	if err == nil {
+	if err == nil && strconv.FormatInt(i64, 10) == s {
 		return i64
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
+	if err == nil && strconv.FormatFloat(f64, 'g', -1, 64) == s {
 		return f64
 	}
 
-- 
2.43.0


From ceae1ac973b2cb655ae42897924e9858731273b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 15/41] fix: HSET and HMSET silently dropped a field without a
 value

---
 redis/hash_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 573d13e..d5d74cc 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -209,7 +209,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -235,7 +235,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From ee5e78974f0897efbf0948a2ee6d019737f0b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 16/41] fix: SPOP did not decrease the cardinality

---
 datastruct/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..5969041 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -46,6 +46,7 @@ func (s *set) sPop(cnt int) []string {
 
 		result = append(result, key)
 		cnt--
+		s.length--
 		return true, true
 	})
 
-- 
2.43.0


From 22596ee6b4f4d5a2c8cf649046425a2ddf6a6961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 17/41] fix: SPOP without a count popped nothing

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From e9dcef3755b7b81d4d4a416badacc24ef9b60431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 18/41] fix: SMEMBERS of an absent key replied an error instead
 of the empty set

---
 redis/set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/set.go b/redis/set.go
index a8dddce..80d2b80 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -179,6 +179,10 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
+	}
+
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cc0d0b3e69bca70bf838c9714b29e450070e0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 19/41] fix: SMOVE lost the member or its count when source or
 target did not fit

---
 datastruct/set.go | 15 ++++++++++++---
 redis/set.go      |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5969041..169b724 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -181,18 +181,27 @@ func SMembers(key string) ([]string, error) {
 
 // SMove move value from source to target
 func SMove(source, target, value string) (int, error) {
+	// refuse before anything is changed
+	_, err := loadAndCheckSet(target, false)
+	if err != nil && err != ErrNil {
+		return 0, err
+	}
+
 	sset, err := loadAndCheckSet(source, true)
 	if err != nil {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
diff --git a/redis/set.go b/redis/set.go
index 80d2b80..c805e2c 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -203,7 +203,7 @@ func sMove(c *Command) (*protocol.Response, error) {
 	)
 
 	res, err := datastruct.SMove(source, target, value)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 751c5cf4957189f17e1c06e7d63967e996f7bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 20/41] fix: SDIFF, SINTER and SUNION treated an absent key as
 an error

---
 datastruct/set.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index 169b724..0ffb1e0 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -209,6 +209,10 @@ func SDiff(keys ...string) ([]string, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -233,6 +237,10 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return 0, err
 		}
@@ -263,6 +271,10 @@ func SInter(keys ...string) ([]string, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -287,6 +299,10 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return 0, err
 		}
@@ -317,6 +333,10 @@ func SUnion(keys ...string) ([]string, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -341,6 +361,10 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 
 	for i, key := range keys {
 		s, err := loadAndCheckSet(key, true)
+		if err == ErrNil {
+			// an absent key is the empty set
+			s, err = newSet(), nil
+		}
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From e8ac2fd9ac9312def5e011b639abaaf4ae26361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 21/41] fix: SDIFF, SINTER and SUNION of a single key replied
 the empty set

---
 redis/set.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/redis/set.go b/redis/set.go
index c805e2c..270bb3e 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -84,10 +80,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -124,10 +116,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
-- 
2.43.0


From 285ca204649fed6798c45d8abd385838cbdf71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 22/41] fix: the STORE forms with one source shared its set
 object

---
 datastruct/set.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 0ffb1e0..6587271 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -246,7 +246,8 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// own copy, the source stays independent
+			result = sUnion(s)
 			continue
 		}
 
@@ -308,7 +309,8 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// own copy, the source stays independent
+			result = sUnion(s)
 			continue
 		}
 
@@ -370,7 +372,8 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// own copy, the source stays independent
+			result = sUnion(s)
 			continue
 		}
 
-- 
2.43.0


From 9b605161c5e006bd54207b55383b76d61deb2f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 23/41] fix: TYPE of a set replied setIfNotExists

---
 datastruct/consts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/consts.go b/datastruct/consts.go
index 194e231..c422b12 100644
--- a/datastruct/consts.go
+++ b/datastruct/consts.go
@@ -9,7 +9,7 @@ type KeyType string
 const (
 	KeyTypeString    KeyType = "string"
 	KeyTypeList      KeyType = "list"
-	KeyTypeSet       KeyType = "setIfNotExists"
+	KeyTypeSet       KeyType = "set"
 	KeyTypeSortedSet KeyType = "sortedSet"
 	KeyTypeHashTable KeyType = "hashTable"
 )
-- 
2.43.0


From 50841903e72857201044b7e04084d0094837d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 24/41] fix: skip list delete stopped after one step per level
 and missed elements

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..1b929c4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From 22cc1964d159f7eebe1b12439b4f2a26cf11a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 25/41] fix: ZPOPMIN and ZPOPMAX left the popped member in the
 dict

---
 datastruct/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b929c4..0ab630d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -789,6 +789,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
@@ -811,6 +812,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
-- 
2.43.0


From ec5810153c42a9420c2ee1a488b8ef2b051dabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 26/41] fix: ZPOPMAX with a count above the cardinality
 returned the list head

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 0ab630d..f5fc8f4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -806,7 +806,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
-- 
2.43.0


From ecac807884e38862ff079055f6abf7cce4766ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 27/41] fix: ZPOPMIN and ZPOPMAX of a key of another kind
 replied an empty array

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..6c656fc 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -273,12 +273,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -304,12 +304,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0


From 167b7e576a97b3f66c4016717c6a1501300e46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 28/41] fix: skip list insert read past rank once a node
 reached the top level

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index f5fc8f4..2b9cbe1 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -135,7 +135,7 @@ func (zsl *zSkipList) insert(score float64, value string) *zSkipListNode {
 	var (
 		update   = make([]*zSkipListNode, ZSkipListMaxLevel) // 记录更新
 		x        *zSkipListNode
-		rank     = make([]uint, ZSkipListMaxLevel)
+		rank     = make([]uint, ZSkipListMaxLevel+1) // rank[i+1] is read for the top level too
 		i, level int
 	)
 
-- 
2.43.0


From 17fae612a2d1b0fec182028e676211bd088412c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 29/41] fix: ZRANK counted from 1 while ZRANGE counts from 0

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 2b9cbe1..f2585cc 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -643,7 +643,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// rank counts from 1
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From b4fcddd6c380971ac7ec22c0f6623c12b1335248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 30/41] fix: ZREVRANGE took its positions from the ascending
 order

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index f2585cc..1b38a8f 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -455,7 +455,7 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From 9fe90c8c8ee583b84eafa6fdb21b01c52e63372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 31/41] fix: score ranges with bounds between, beyond or shared
 by scores selected wrong members

---
 datastruct/sorted_set.go | 78 ++++++----------------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b38a8f..e1a6f5d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -308,90 +308,45 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
+	if minRank > maxRank {
+		return 0
 	}
 
 	return maxRank - minRank + 1
 }
 
-// return -1 if score is inf
+// return the rank of the first element that is not below min (length+1 if there is none)
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// return the rank of the last element that is not above max (0 if there is none)
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -474,21 +429,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if minRank > maxRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 0bff4cee31fe7994d0418db8e404baaf422e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 32/41] fix: ZINCR by zero replied 0 instead of the score

---
 datastruct/sorted_set.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index e1a6f5d..ad17d8c 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -655,11 +655,17 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 	}
 
 	node := zs.zAdd(score, value, ZAddInIncr)
-	if node == nil {
+	if node != nil {
+		return node.score, nil
+	}
+
+	de := zs.loadDictEntry(value)
+	if de == nil {
 		return 0, ErrNil
 	}
 
-	return node.score, nil
+	// score not changed
+	return *(de.getValue().(*float64)), nil
 }
 
 // ZRange not support limit for now
-- 
2.43.0


From adcdbcaf82863eea7eafd245f3a12e839f049e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 33/41] fix: NaN scores and bounds broke the order of a sorted
 set

---
 datastruct/sorted_set.go | 12 ++++++++++--
 redis/sorted_set.go      |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index ad17d8c..b76aaca 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -481,6 +481,9 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 	if flag&ZAddInIncr != 0 {
 		score += oldScore
 	}
+	if math.IsNaN(score) {
+		return nil
+	}
 
 	if score != oldScore {
 		node := zs.zsl.updateScore(oldScore, score, value)
@@ -665,7 +668,12 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 	}
 
 	// score not changed
-	return *(de.getValue().(*float64)), nil
+	cur := *(de.getValue().(*float64))
+	if math.IsNaN(cur + score) {
+		return 0, ErrNotFloat
+	}
+
+	return cur, nil
 }
 
 // ZRange not support limit for now
@@ -790,7 +798,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 6c656fc..23c7e92 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -36,7 +37,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -156,7 +157,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From 52ba7ec7ba9a9c6235c36a47d17206f29f76eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 34/41] fix: ZADD ignored a trailing argument and accepted no
 members at all

---
 redis/sorted_set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 23c7e92..7e19708 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -21,9 +21,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		key     = c.Values[0]
 		members = make([]*datastruct.ZSetMember, 0)
 		flag    int
+		i       = 1
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	for i < len(c.Values)-1 {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -49,6 +50,10 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if i != len(c.Values) || len(members) == 0 {
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c003231ae3bbb2fc7e469b843bb8b0372c905b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 35/41] fix: KEYS with an invalid pattern crashed the server

---
 datastruct/keys.go | 8 ++++++--
 redis/keys.go      | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..4a6a367 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, err
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..a9af654 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, err
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From d84509a44b39bf4c1ffcba8a49866e54909329fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 36/41] fix: emptied collections kept their key

---
 datastruct/hash_table.go |  4 +++-
 datastruct/keys.go       |  7 +++++++
 datastruct/list.go       | 18 +++++++++++-------
 datastruct/set.go        | 10 +++++++++-
 datastruct/sorted_set.go |  8 ++++++--
 5 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index bca87c9..c3b44b6 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -191,7 +191,9 @@ func HDel(key, field string) (int, error) {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	cnt := h.del(field)
+	removeIfEmpty(key, h.length)
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/datastruct/keys.go b/datastruct/keys.go
index 4a6a367..6c6b464 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -42,6 +42,13 @@ func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
 	return info, nil
 }
 
+// removeIfEmpty drops the key of a collection that holds no element any more
+func removeIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 /*
  * Common Command
  */
diff --git a/datastruct/list.go b/datastruct/list.go
index 7a02b53..37ab478 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -477,6 +477,7 @@ func LPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	removeIfEmpty(key, list.length)
 	return
 }
 
@@ -519,6 +520,7 @@ func RPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	removeIfEmpty(key, list.length)
 	return
 }
 
@@ -549,19 +551,21 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return 0, err
 	}
 
-	if count > 0 {
-		return list.LRemCountFromHead(value, count), nil
-	}
-
-	if count < 0 {
+	switch {
+	case count > 0:
+		n = list.LRemCountFromHead(value, count)
+	case count < 0:
 		if count < -list.length {
 			// -count overflows for the smallest int
 			count = -list.length
 		}
-		return list.LRemCountFromTail(value, -count), nil
+		n = list.LRemCountFromTail(value, -count)
+	default:
+		n = list.LRemCountFromHead(value, list.length)
 	}
 
-	return list.LRemCountFromHead(value, list.length), nil
+	removeIfEmpty(key, list.length)
+	return n, nil
 }
 
 func LIndex(key string, index int) (value string, err error) {
diff --git a/datastruct/set.go b/datastruct/set.go
index 6587271..340c886 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -153,6 +153,8 @@ func SRem(key string, values ...string) (int, error) {
 		cnt += s.sRem(value)
 	}
 
+	removeIfEmpty(key, s.length)
+
 	return cnt, nil
 }
 
@@ -201,6 +203,7 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
+	removeIfEmpty(source, sset.length)
 	return 1, nil
 }
 
@@ -263,6 +266,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -326,6 +330,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -389,6 +394,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		Value: result,
 	})
 
+	removeIfEmpty(storeKey, result.length)
 	return result.length, nil
 }
 
@@ -398,7 +404,9 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
-	return s.sPop(cnt), nil
+	result := s.sPop(cnt)
+	removeIfEmpty(key, s.length)
+	return result, nil
 }
 
 /*
diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index b76aaca..24d0da1 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -561,6 +561,7 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		}
 	}
 
+	removeIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -612,6 +613,7 @@ func ZRem(key string, values ...string) (int, error) {
 		cnt++
 	}
 
+	removeIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -745,7 +747,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
 		if node == nil {
-			return result, nil
+			break
 		}
 
 		zs.m.Delete(node.value)
@@ -755,6 +757,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	removeIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
@@ -768,7 +771,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
-			return result, nil
+			break
 		}
 
 		zs.m.Delete(node.value)
@@ -778,6 +781,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			strconv.FormatFloat(node.score, 'g', -1, 64))
 	}
 
+	removeIfEmpty(key, zs.zsl.length)
 	return result, nil
 }
 
-- 
2.43.0


From 9423d87e63b57e2a5444620342e178ae892ebf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 37/41] fix: a protocol line without CR lost its last byte or
 crashed the decoder

---
 protocol/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..e5a3c3f 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -119,7 +119,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || line[len(line)-CRLFLen] != '\r' {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
-- 
2.43.0


From afd03ac2320326106cbe7264d3dd33a6975a5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 38/41] fix: negative, non-numeric, huge or deeply nested
 lengths crashed the decoder or were guessed

---
 protocol/consts.go |  6 ++++++
 protocol/decode.go | 45 +++++++++++++++++++++++++++++----------------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/protocol/consts.go b/protocol/consts.go
index 7f9f1c1..6a0d4e6 100644
--- a/protocol/consts.go
+++ b/protocol/consts.go
@@ -15,6 +15,12 @@ const (
 	CRLFLen = len(CRLF)
 )
 
+// same limits as redis
+const (
+	maxBulkLength  = 512 * 1024 * 1024
+	maxArrayLength = 1024 * 1024
+)
+
 type ProtocolDataType int8
 
 const (
diff --git a/protocol/decode.go b/protocol/decode.go
index e5a3c3f..0285e48 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -129,7 +129,10 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
+		if err != nil {
+			return 0, 0, err
+		}
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -144,19 +147,31 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
-	}
-
+// line is terminated by CRLF
+func readBulkOrArrayLength(line []byte) (int, error) {
 	var (
-		ln int
+		ln  int
+		max = maxBulkLength
 	)
-	for i := 1; line[i] != '\r'; i++ {
+	if line[0] == descriptionArrays {
+		max = maxArrayLength
+	}
+	if len(line) < 2+CRLFLen {
+		return 0, fmt.Errorf("invalid length")
+	}
+
+	for i := 1; i < len(line)-CRLFLen; i++ {
+		if line[i] < '0' || line[i] > '9' {
+			return 0, fmt.Errorf("invalid length")
+		}
+
 		ln = (ln * 10) + int(line[i]-'0')
+		if ln > max {
+			return 0, fmt.Errorf("invalid length")
+		}
 	}
 
-	return ln
+	return ln, nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
@@ -183,13 +198,6 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
-			if subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
@@ -202,6 +210,11 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 				return err
 			}
 		}
+
+		// elements of a nested array follow, they count as elements of this one
+		if desc == descriptionArrays {
+			ln += length
+		}
 	}
 
 	return nil
-- 
2.43.0


From cb9250d5bc11c0817011d5ba9cd358e42712d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 39/41] fix: a bulk string split over several reads was padded
 with zero bytes

---
 protocol/decode.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 0285e48..41dba95 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -1,6 +1,7 @@
 package protocol
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -179,12 +180,18 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 		return fmt.Errorf("invalid length")
 	}
 
-	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	// a single Read may return less, and memory is only used for what really arrives
+	buf := new(bytes.Buffer)
+	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
 	if err != nil {
 		return err
 	}
 
+	val := buf.Bytes()
+	if string(val[ln:]) != CRLF {
+		return fmt.Errorf("bulk string not terminated by CRLF")
+	}
+
 	// trim last \r\n
 	r.append(string(val[:ln]), string(val))
 
-- 
2.43.0


From 2b93689f6647665e45210bf3102af0bee0122ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 40/41] fix: a line break inside an error or status text broke
 the reply framing

---
 protocol/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/protocol/encode.go b/protocol/encode.go
index eb5dccd..572b10a 100644
--- a/protocol/encode.go
+++ b/protocol/encode.go
@@ -3,6 +3,7 @@ package protocol
 import (
 	"bytes"
 	"strconv"
+	"strings"
 
 	"github.com/yusank/godis/util"
 )
@@ -152,10 +153,10 @@ func (ri *ResponseItem) encode(buf *bytes.Buffer) {
 
 	switch ri.Type {
 	case TypeSimpleStrings:
-		str := ri.Value.(string)
+		str := oneLine(ri.Value.(string))
 		_, _ = buf.WriteString(util.StringConcat(len(str)+3, "+", str, CRLF))
 	case TypeErrors:
-		str := ri.Value.(error).Error()
+		str := oneLine(ri.Value.(error).Error())
 		_, _ = buf.WriteString(util.StringConcat(len(str)+3, "-", str, CRLF))
 	case TypeIntegers:
 		str := strconv.FormatInt(ri.Value.(int64), 10)
@@ -170,3 +171,8 @@ func (ri *ResponseItem) encode(buf *bytes.Buffer) {
 		_, _ = buf.WriteString(util.StringConcat(len(str)+len(lnStr)+5, "$", lnStr, CRLF, str, CRLF))
 	}
 }
+
+// oneLine keeps a text that is sent as a single protocol line from ending that line early.
+func oneLine(s string) string {
+	return strings.ReplaceAll(strings.ReplaceAll(s, "\r", " "), "\n", " ")
+}
-- 
2.43.0


From 066dc08b617217c467b9c6add0cf13e9b7f12ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 41/41] fix: the debug build ran its preparation commands at
 the same time, beside the command queue

---
 cmd/server/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..c2fa335 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -13,6 +13,7 @@ import (
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/debug"
+	"github.com/yusank/godis/event"
 	"github.com/yusank/godis/redis"
 	"github.com/yusank/godis/server"
 	v2 "github.com/yusank/godis/server/v2"
@@ -110,7 +111,9 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		e := event.NewEvent(c)
+		event.AddEvent(e)
+		<-e.Done()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0

