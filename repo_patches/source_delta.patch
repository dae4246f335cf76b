From e406201e70deb144d4f4b76d7f8f7c04a1c93eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 01/27] fix: bolt: Clear on a closed provider released no lock

---
 provider/bolt/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..41e3549 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -881,6 +881,7 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
+		p.m.Unlock()
 		return
 	}
 	p.m.Unlock()
-- 
2.43.0


From 39fb66dc65cf8771e3fe5243deb825b77dd47013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 02/27] fix: bolt: the background check never reclaimed dead
 sessions

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 41e3549..6516db9 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From b903199c9f45d3ae71214633e2152cd2b41d346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 03/27] fix: bolt: Get returned memory of a finished
 transaction

---
 provider/bolt/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..c03a67b 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -169,8 +169,9 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 	for i, k := range key {
 		b := bucket.Get([]byte(k))
 		if b != nil {
+			// b is only valid while the transaction is open
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  append([]byte{}, b...),
 				Exists: true,
 			}
 		}
-- 
2.43.0


From 758a4dca09ea8429c3854b90455eb2861b7e9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 04/27] fix: bolt: Clear failed on a store that never held a
 session

---
 provider/bolt/provider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 6516db9..6a519f0 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -856,7 +856,9 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+			}
 			if e != nil {
 				return
 			}
-- 
2.43.0


From 9449c4b3601787f52fe29659eded8f6edfe04783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 05/27] fix: bolt: the periodic sweep could still write after
 Close

---
 provider/bolt/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 6a519f0..1ce7067 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -158,6 +158,9 @@ func (p *Provider) data(t *bolt.Tx) (store, md, data *bolt.Bucket) {
 }
 
 func (p *Provider) doClear() {
+	if p.done != 0 {
+		return
+	}
 	p.db.Update(func(t *bolt.Tx) (e error) {
 		var (
 			store                  = p.store(t)
-- 
2.43.0


From 8f33f1e887b9c11e68e319fde518a35b6b2240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 06/27] fix: memory, bolt: Refresh onto the token of another
 session left both behind

---
 provider.go               | 1 +
 provider/bolt/provider.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/provider.go b/provider.go
index 3c04702..8be954c 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,7 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 1ce7067..ab23ceb 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -775,6 +775,10 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From c5e0c334b28ba9e6f37bcb68d3601034ca06b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 07/27] fix: memory: the periodic sweep leaked an entry per
 identity

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 8be954c..336c3f8 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From c81948ee49e6973337dee965364b2ea7d44f6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 08/27] fix: cryptoer: HS256, HS384 and HS512 were unavailable
 unless the program linked them

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..4baa678 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -3,6 +3,10 @@ package cryptoer
 import (
 	"crypto"
 	"crypto/hmac"
+	_ "crypto/md5"
+	_ "crypto/sha1"
+	_ "crypto/sha256"
+	_ "crypto/sha512"
 	"encoding/base64"
 	"errors"
 )
-- 
2.43.0


From 1a828d569824a57738a545e116f76490b6025a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 09/27] fix: session: a deleted key was still served from the
 handle's cache

---
 session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session.go b/session.go
index 2ab136d..2a91ac0 100644
--- a/session.go
+++ b/session.go
@@ -214,5 +214,8 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
+	for _, k := range key {
+		delete(s.keys, k)
+	}
 	return s.provider.Delete(ctx, token, key)
 }
-- 
2.43.0


From 5d498351dc0dcbb2c47a89aa4e9de95d4594bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 10/27] fix: session: Get panicked or returned foreign data
 when a cached value was read again

---
 session.go | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/session.go b/session.go
index 2a91ac0..c7b07bd 100644
--- a/session.go
+++ b/session.go
@@ -12,8 +12,6 @@ type Value struct {
 }
 type value struct {
 	Value
-	Elem  reflect.Value
-	Ready bool
 }
 
 type Session struct {
@@ -162,19 +160,9 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
-				vo.Elem().Set(v.Elem.Elem())
-			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
-				if e != nil {
-					return
-				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
-				s.keys[key] = v
-			}
+			// always decode: a decoded value shares memory with the caller,
+			// and only fits pointers of exactly its type
+			e = s.coder.Decode(v.Bytes, pointer)
 			return
 		}
 		e = ErrKeyNotExists
@@ -200,14 +188,9 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	if e != nil {
 		return
 	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
 	var v value
 	v.Exists = true
 	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
 	s.keys[key] = v
 	return
 }
-- 
2.43.0


From cae3892eba0d0427c49e6f404d9fbb9275e4fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 11/27] fix: redis: Refresh of a dead session reported success

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..c6820d1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -409,6 +409,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From 0eacc76a0e08f7bf2be66dc3ff112ad639d6d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 12/27] fix: redis: sessions expired up to a second before
 their refresh deadline

---
 provider/redis/provider.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c6820d1..f1178cb 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -152,8 +152,8 @@ func (p *Provider) Create(ctx context.Context,
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, p.opts.refresh)
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -286,7 +286,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -426,7 +426,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From 632ff523894bd7e48a1f0a52d871beccf1d70f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 13/27] fix: redis: Create over an existing session kept its
 old keys

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index f1178cb..53a8fea 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.PExpireAt(ctx, key, md.RefreshDeadline)
 	tx.PExpire(ctx, key, p.opts.refresh)
-- 
2.43.0


From 82dd54cba8f301ff23d725e411bc329b8d658634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 14/27] fix: redis: Get exposed the reserved metadata field

---
 provider/redis/provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 53a8fea..1398f10 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -318,6 +318,9 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 	}
 	vals = make([]sessionid.Value, len(keys))
 	for i, v := range results {
+		if i != 0 && fields[i] == p.opts.metadataKey {
+			continue
+		}
 		if i == 0 {
 			if str, ok := v.(string); ok && len(str) != 0 {
 				var md _Metadata
-- 
2.43.0


From aa7637d60b24d5989cbc4807ecb20ea0a31f5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 15/27] fix: redis: Keys ignored the token's status and exposed
 the reserved metadata field

---
 provider/redis/provider.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 1398f10..cfcdd6e 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -360,11 +360,36 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	var md _Metadata
+	key := p.keyName(token)
+	_, e = p.getMetadata(ctx, key, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+	fields, e := p.opts.client.HKeys(ctx, key).Result()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
+	exists := false
+	for _, field := range fields {
+		if field == p.opts.metadataKey {
+			exists = true
+		} else {
+			keys = append(keys, field)
+		}
+	}
+	if !exists {
+		keys = nil
+		e = sessionid.ErrTokenNotExists
+	}
 	return
 }
 
-- 
2.43.0


From 9542b346dd6694c2b867759eac6396ef8e497b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 16/27] fix: redis: Put and Refresh raced with concurrent
 changes of the session

---
 provider/redis/provider.go | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index cfcdd6e..932774c 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -207,8 +207,24 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+
+// watch runs f as an optimistic transaction on the token's key, again if
+// another client changed the key meanwhile.
+func (p *Provider) watch(ctx context.Context, token string, f func(c *redis.Tx) error) (e error) {
+	e = p.checkID(token)
+	if e != nil {
+		return
+	}
+	for {
+		e = p.opts.client.Watch(ctx, f, p.keyName(token))
+		if e != redis.TxFailedErr {
+			e = p.toError(e)
+			return
+		}
+	}
+}
+func (p *Provider) getMetadata(ctx context.Context, c redis.Cmdable, key string, md *_Metadata) (val string, e error) {
+	val, e = c.HGet(ctx, key, p.opts.metadataKey).Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -233,7 +249,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -255,6 +271,11 @@ func (p *Provider) pushDelete(token string) {
 
 // Put key value for token
 func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairBytes) (e error) {
+	return p.watch(ctx, token, func(c *redis.Tx) error {
+		return p.put(ctx, c, token, pair)
+	})
+}
+func (p *Provider) put(ctx context.Context, c *redis.Tx, token string, pair []sessionid.PairBytes) (e error) {
 	e = p.checkID(token)
 	if e != nil {
 		return
@@ -271,7 +292,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 
 	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
+	mdStr, e := p.getMetadata(ctx, c, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -284,7 +305,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	}
 	fields = append(fields, p.opts.metadataKey, mdStr)
 
-	tx := p.opts.client.TxPipeline()
+	tx := c.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
 	tx.PExpireAt(ctx, key, md.RefreshDeadline)
@@ -362,7 +383,7 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -428,13 +449,18 @@ func (p *Provider) checkID(token ...string) (e error) {
 
 // Refresh a new access token
 func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) (e error) {
+	return p.watch(ctx, access, func(c *redis.Tx) error {
+		return p.refresh(ctx, c, access, refresh, newAccess, newRefresh)
+	})
+}
+func (p *Provider) refresh(ctx context.Context, c *redis.Tx, access, refresh, newAccess, newRefresh string) (e error) {
 	e = p.checkID(access, refresh, newAccess, newRefresh)
 	if e != nil {
 		return
 	}
 	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, c, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -452,7 +478,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	}
 
 	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
+	tx := c.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
 	tx.PExpireAt(ctx, key, md.RefreshDeadline)
-- 
2.43.0


From 352607f3d59144c8996fe4670ecca0535848c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 17/27] fix: redis: Delete ignored the token's status and could
 remove the reserved metadata field

---
 provider/redis/provider.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 932774c..68f51bb 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -416,14 +416,41 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 
 // Delete keys
 func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e error) {
+	return p.watch(ctx, token, func(c *redis.Tx) error {
+		return p.deleteKeys(ctx, c, token, keys)
+	})
+}
+func (p *Provider) deleteKeys(ctx context.Context, c *redis.Tx, token string, keys []string) (e error) {
 	e = p.checkID(token)
 	if e != nil {
 		return
 	}
+	for _, field := range keys {
+		e = p.checkKey(field)
+		if e != nil {
+			return
+		}
+	}
+	var md _Metadata
+	key := p.keyName(token)
+	_, e = p.getMetadata(ctx, c, key, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
 	if len(keys) == 0 {
 		return
 	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
+	tx := c.TxPipeline()
+	defer tx.Close()
+	tx.HDel(ctx, key, keys...)
+	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
 		return
-- 
2.43.0


From 069ee6d1fe7457bcbfb244bd8403878623635c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 18/27] fix: redis: Destroy by id hit foreign sessions and
 missed special characters and concurrent refreshes

---
 provider/redis/provider.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 68f51bb..96249bc 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -169,19 +170,30 @@ func (p *Provider) checkKey(key string) (e error) {
 	}
 	return
 }
+
+// escape glob-style pattern
+func escape(str string) string {
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`).Replace(str)
+}
 func (p *Provider) keyName(key string) string {
 	return p.opts.keyPrefix + key
 }
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
+	result := p.opts.client.Keys(ctx, escape(p.keyName(id))+`.*`)
 	e = result.Err()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
-	keys := result.Val()
+	keys := make([]string, 0, len(result.Val()))
+	for _, key := range result.Val() {
+		// an id with a separator matches tokens of other ids
+		if s, _, _, err := sessionid.Split(key[len(p.opts.keyPrefix):]); err == nil && s == id {
+			keys = append(keys, key)
+		}
+	}
 	if len(keys) == 0 {
 		return
 	}
@@ -190,7 +202,8 @@ func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
 		e = p.toError(e)
 		return
 	}
-	return
+	// a session may have been refreshed under a new key meanwhile
+	return p.Destroy(ctx, id)
 }
 
 // Destroy a session by token
-- 
2.43.0


From 0bc07c68989358d8419163c137da8a1c006c8734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 19/27] fix: redis: the background deletion could remove a live
 session

---
 provider/redis/provider.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 96249bc..a081849 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -84,17 +84,33 @@ func (p *Provider) delete(batch int) {
 			}
 		}
 		// do delete
-		keys := make([]string, 0, len(m))
 		for key := range m {
-			keys = append(keys, key)
+			p.deleteDead(key)
 		}
-		p.opts.client.Del(p.ctx, keys...)
 		// clear task
 		for token = range m {
 			delete(m, token)
 		}
 	}
 }
+
+// deleteDead deletes the key unless it holds a session that is still alive.
+func (p *Provider) deleteDead(key string) error {
+	return p.opts.client.Watch(p.ctx, func(c *redis.Tx) (e error) {
+		var md _Metadata
+		val, e := p.getMetadata(p.ctx, c, key, &md)
+		if e == nil && !md.IsDeleted() {
+			return
+		} else if e != nil && val == "" && e != sessionid.ErrTokenNotExists {
+			return
+		}
+		tx := c.TxPipeline()
+		defer tx.Close()
+		tx.Del(p.ctx, key)
+		_, e = tx.Exec(p.ctx)
+		return
+	}, key)
+}
 func (p *Provider) tryRead() (token string, yes, closed bool) {
 	select {
 	case <-p.ctx.Done():
-- 
2.43.0


From 256122830313a12fdf1508b3e146caed207710ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 20/27] fix: redis: Close closed a client that belongs to the
 caller

---
 provider/redis/provider.go | 47 +++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a081849..68253b8 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"net"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -22,6 +23,7 @@ type Provider struct {
 	ctx    context.Context
 	cancel context.CancelFunc
 
+	own  bool // the client was created by the provider
 	done uint32
 	m    sync.RWMutex
 }
@@ -32,7 +34,8 @@ func New(opt ...Option) (provider *Provider, e error) {
 		o.apply(&opts)
 	}
 
-	if opts.client == nil {
+	own := opts.client == nil
+	if own {
 		var opt *redis.Options
 		opt, e = redis.ParseURL(opts.url)
 		if e != nil {
@@ -52,6 +55,7 @@ func New(opt ...Option) (provider *Provider, e error) {
 		ch:     ch,
 		ctx:    ctx,
 		cancel: cancel,
+		own:    own,
 	}
 	go provider.delete(opts.batch)
 	return
@@ -130,11 +134,18 @@ func (p *Provider) read() (token string, closed bool) {
 	return
 }
 func (p *Provider) toError(e error) error {
-	if errors.Is(e, redis.ErrClosed) {
+	if errors.Is(e, redis.ErrClosed) ||
+		(errors.Is(e, net.ErrClosed) && p.ctx.Err() != nil) {
 		return sessionid.ErrProviderClosed
 	}
 	return e
 }
+func (p *Provider) checkClosed() (e error) {
+	if p.ctx.Err() != nil {
+		e = sessionid.ErrProviderClosed
+	}
+	return
+}
 
 // Create new session
 func (p *Provider) Create(ctx context.Context,
@@ -145,6 +156,10 @@ func (p *Provider) Create(ctx context.Context,
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 
 	md := newMetadata(access, refresh, p.opts.access, p.opts.refresh)
 	if md.IsDeleted() {
@@ -197,6 +212,10 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 	result := p.opts.client.Keys(ctx, escape(p.keyName(id))+`.*`)
 	e = result.Err()
 	if e != nil {
@@ -228,6 +247,10 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 
 	e = p.opts.client.Del(ctx, p.keyName(token)).Err()
 	if e != nil {
@@ -244,6 +267,10 @@ func (p *Provider) watch(ctx context.Context, token string, f func(c *redis.Tx)
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 	for {
 		e = p.opts.client.Watch(ctx, f, p.keyName(token))
 		if e != redis.TxFailedErr {
@@ -275,6 +302,10 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 
 	var md _Metadata
 	key := p.keyName(token)
@@ -352,6 +383,10 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 
 	fields := make([]string, 1+len(keys))
 	fields[0] = p.opts.metadataKey
@@ -409,6 +444,10 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 	if e != nil {
 		return
 	}
+	e = p.checkClosed()
+	if e != nil {
+		return
+	}
 
 	var md _Metadata
 	key := p.keyName(token)
@@ -558,7 +597,9 @@ func (p *Provider) Close() error {
 			if p.ticker != nil {
 				p.ticker.Stop()
 			}
-			p.opts.client.Close()
+			if p.own {
+				p.opts.client.Close()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 78bee99d8dbd3b1c7c4af194478e41949a5ec082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 21/27] fix: coder: GOBCoder panicked on a nil pointer

---
 coder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/coder.go b/coder.go
index ed63d41..36f8b5a 100644
--- a/coder.go
+++ b/coder.go
@@ -6,6 +6,8 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"encoding/xml"
+	"errors"
+	"reflect"
 
 	"github.com/google/uuid"
 )
@@ -39,6 +41,12 @@ type JSONCoder struct{}
 type XMLCoder struct{}
 
 func (GOBCoder) Encode(v interface{}) ([]byte, error) {
+	// gob panics on a nil pointer
+	for vo := reflect.ValueOf(v); vo.Kind() == reflect.Ptr; vo = vo.Elem() {
+		if vo.IsNil() {
+			return nil, errors.New(`gob: cannot encode nil pointer of type ` + vo.Type().String())
+		}
+	}
 	var buf bytes.Buffer
 	e := gob.NewEncoder(&buf).Encode(v)
 	if e != nil {
-- 
2.43.0


From 7a5a532564621414a3b5925922e1fe3e8186c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 22/27] fix: token: session ids repeated when the clock stood
 still

---
 coder.go | 11 ++++++++++-
 token.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/coder.go b/coder.go
index 36f8b5a..345077d 100644
--- a/coder.go
+++ b/coder.go
@@ -3,11 +3,13 @@ package sessionid
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/binary"
 	"encoding/gob"
 	"encoding/json"
 	"encoding/xml"
 	"errors"
 	"reflect"
+	"sync/atomic"
 
 	"github.com/google/uuid"
 )
@@ -23,12 +25,19 @@ type Coder interface {
 	Decoder
 }
 
+// sessionidCount number of session id created
+var sessionidCount uint32
+
 func newSessionID() (sessionid string, e error) {
 	u, e := uuid.NewUUID()
 	if e != nil {
 		return
 	}
-	sessionid = encode(u[:])
+	// the clock sequence of the uuid wraps when the clock does not advance
+	b := make([]byte, sessionidLen)
+	copy(b, u[:])
+	binary.BigEndian.PutUint32(b[len(u):], atomic.AddUint32(&sessionidCount, 1))
+	sessionid = encode(b)
 	return
 }
 
diff --git a/token.go b/token.go
index edf9ebc..d632c8d 100644
--- a/token.go
+++ b/token.go
@@ -8,7 +8,7 @@ import (
 
 const (
 	Separator    = '.'
-	sessionidLen = 16 + 4 // uuid + 4bytes rand
+	sessionidLen = 16 + 4 // uuid + 4bytes count
 )
 
 func Join(elem ...string) string {
-- 
2.43.0


From 6980cfbb42698e45a7b10d7ee16325622acc56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 23/27] fix: redis sessions that live beyond the year 2262 are
 dropped at once

---
 provider/redis/provider.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 68253b8..8d2af20 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -185,7 +185,7 @@ func (p *Provider) Create(ctx context.Context,
 	defer tx.Close()
 	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	p.expireAt(ctx, tx, key, md.RefreshDeadline)
 	tx.PExpire(ctx, key, p.opts.refresh)
 	_, e = tx.Exec(ctx)
 	if e != nil {
@@ -210,6 +210,12 @@ func (p *Provider) keyName(key string) string {
 	return p.opts.keyPrefix + key
 }
 
+// expireAt is tx.PExpireAt for any time, the client's own computes with
+// nanoseconds since 1970 which end in 2262.
+func (p *Provider) expireAt(ctx context.Context, tx redis.Pipeliner, key string, at time.Time) {
+	tx.Do(ctx, `pexpireat`, key, at.Unix()*1000+int64(at.Nanosecond())/int64(time.Millisecond))
+}
+
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
 	e = p.checkClosed()
@@ -368,7 +374,7 @@ func (p *Provider) put(ctx context.Context, c *redis.Tx, token string, pair []se
 	tx := c.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	p.expireAt(ctx, tx, key, md.RefreshDeadline)
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -576,7 +582,7 @@ func (p *Provider) refresh(ctx context.Context, c *redis.Tx, access, refresh, ne
 	tx := c.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpireAt(ctx, key, md.RefreshDeadline)
+	p.expireAt(ctx, tx, key, md.RefreshDeadline)
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From b2d1d5c674740a4ff1505d61fd3722744d9fecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 24/27] fix: bolt: the periodic sweep stopped at the first live
 session

A store that is opened again with shorter lifetimes, or used by providers
with different ones, holds dead sessions behind live ones. They were not
reclaimed before the live ones in front of them had died, too.
---
 provider/bolt/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index ab23ceb..456ed50 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -181,7 +181,8 @@ func (p *Provider) doClear() {
 				}
 				continue
 			} else if !md.IsDeleted() {
-				break
+				// those behind may have been given shorter lifetimes
+				continue
 			}
 			e = p.delete(store, bMD, bData, bIDS, bLRU, string(v), []byte(md.ID), md.LRU)
 			if e != nil {
-- 
2.43.0


From 79992ae53d718a55620ce48de2ccaafa86181a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 25/27] fix: bolt: a store opened again with a smaller size
 kept its old one

Create removed one session when there were too many, which never brought a
store that was used with a larger maximum size (or none) before down to the
configured one.
---
 provider/bolt/provider.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 456ed50..a95dc43 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -311,11 +311,13 @@ func (p *Provider) Create(ctx context.Context,
 		if e != nil {
 			return
 		}
-		if p.opts.maxSize > 0 &&
-			p.count(store) >= uint64(p.opts.maxSize) {
-			e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
-			if e != nil {
-				return
+		if p.opts.maxSize > 0 {
+			// more than one if the store was used with a larger size before
+			for n := p.count(store); n >= uint64(p.opts.maxSize); n-- {
+				e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
+				if e != nil {
+					return
+				}
 			}
 		}
 
-- 
2.43.0


From 7bf90dc5ca8f12877f4d5d637f4a5d2c053105ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:44 +0000
Subject: [PATCH 26/27] fix: bolt: a provider's bucket changed with the
 caller's slice

---
 provider/bolt/option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/bolt/option.go b/provider/bolt/option.go
index 35dfd02..961eec5 100644
--- a/provider/bolt/option.go
+++ b/provider/bolt/option.go
@@ -69,6 +69,7 @@ func WithDB(db *bolt.DB) Option {
 	})
 }
 func WithBucket(bucket []byte) Option {
+	bucket = append([]byte{}, bucket...)
 	return newFuncOption(func(o *options) {
 		o.bucket = bucket
 	})
-- 
2.43.0


From 080d03c8022c5f62b9f564f59e212c22c3649401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:58 +0000
Subject: [PATCH 27/27] fix: a manager's key changed with the caller's slice

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 235ba44..fae0c10 100644
--- a/option.go
+++ b/option.go
@@ -38,6 +38,7 @@ func WithMethod(method cryptoer.SigningMethod) Option {
 	})
 }
 func WithKey(key []byte) Option {
+	key = append([]byte{}, key...)
 	return newFuncOption(func(o *options) {
 		o.key = key
 	})
-- 
2.43.0

