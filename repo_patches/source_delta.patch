From 2f36199a586d697d55c0e2e6a64fdf438a6a77b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 01/49] fix: allocate cache shards up front

Set created a missing shard without synchronisation, so concurrent first
uses of a shard could each create one: a stored value was lost, the wrong
mutex was unlocked and lookups could panic on an empty shard.
---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..1ae6712 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -37,5 +37,13 @@ type SpearCache struct {
 
 // NewCache returns an empty SpearCache
 func NewCache() *SpearCache {
-	return &SpearCache{}
+	c := &SpearCache{}
+
+	// All shards are allocated up front. Creating them on first use is not safe, because
+	// several go routines can be the first to use the same shard.
+	for i := range c.shards {
+		c.shards[i] = newShard()
+	}
+
+	return c
 }
-- 
2.43.0


From f03af9353ddb27ec99e0c031d963e93c9572b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 02/49] fix: search the cache from the newest entry and honour
 max age

Lookups started at the cursor, which is the oldest entry once the ring is
full: they returned outdated values, or stopped there and missed every
key. Max age was only checked for the first entries, the time was taken
before the lock (later entries underflowed), and the returned item could
already be overwritten.
---
 cache/find.go | 26 ++++++++++++--------------
 cache/get.go  | 37 +++++++++++++++++--------------------
 2 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index febe2e6..14bce65 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -30,9 +30,6 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil, 0
@@ -41,19 +38,20 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	// Get current time in nano seconds. This is done when the shard is locked, so that
+	// no item is newer than now.
+	now := uint64(time.Now().UnixNano())
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	rangeEnd := c.shards[id].cursor - defaultItems
+
+	// We range over the ring queue, from the newest to the oldest entry
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,16 +60,16 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			// appendKey. This can overwrite the found item, so we keep it.
+			found := c.shards[id].items[itemID]
+			c.appendKey(key, id, found.value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			return true, found.value, now - found.modTime
 		}
 	}
 
diff --git a/cache/get.go b/cache/get.go
index 091760e..6b106be 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -29,9 +29,6 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil
@@ -40,20 +37,19 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
-	var itemsParsed int
+	// Get current time in nano seconds. This is done when the shard is locked, so that
+	// no item is newer than now.
+	now := uint64(time.Now().UnixNano())
+
+	rangeEnd := c.shards[id].cursor - defaultItems
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
-		itemsParsed++
+	// We range over the ring queue, from the newest to the oldest entry
+	for i := c.shards[id].cursor - 1; i >= rangeEnd; i-- {
 		itemID := i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,20 +58,21 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
-		}
-
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// We check if the key matches the key we search. The first match is the newest entry
+		// of the key. We test if it is within the maxAge range. If it is not we break.
 		if key == keyHash {
 
-			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			if now-c.shards[id].items[itemID].modTime > maxAge {
+				break
+			}
+
+			// appendKey. This can overwrite the found item, so we keep the value.
+			value := c.shards[id].items[itemID].value
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From 4c62fcdf47567af12ea597519c43800a5b639aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 03/49] fix: tell cache keys with the same xxhash apart

Different keys with one xxhash, which a client can construct, shared an
entry, and keys with hash zero were never found.
---
 cache/find.go  | 11 ++++-------
 cache/get.go   | 11 ++++-------
 cache/set.go   |  9 ++++++---
 cache/shard.go |  6 ++++++
 4 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index 14bce65..57ef76b 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -15,6 +15,7 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"time"
 
 	"github.com/cespare/xxhash"
@@ -29,6 +30,7 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// hash the key with xxhash and make the id
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
+	sum := keySum(sha256.Sum256([]byte(key)))
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
@@ -55,17 +57,12 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 
 		key := c.shards[id].items[itemID].key
 
-		// If the key is empty we continue, this is when the queue is empty at the start
-		if key == 0 {
-			continue
-		}
-
 		// We check if the key matches the key we search.
-		if key == keyHash {
+		if key == keyHash && c.shards[id].items[itemID].sum == sum {
 
 			// appendKey. This can overwrite the found item, so we keep it.
 			found := c.shards[id].items[itemID]
-			c.appendKey(key, id, found.value)
+			c.appendKey(key, sum, id, found.value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
diff --git a/cache/get.go b/cache/get.go
index 6b106be..30887bb 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -15,6 +15,7 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"time"
 
 	"github.com/cespare/xxhash"
@@ -28,6 +29,7 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// hash the key with xxhash and make the id
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
+	sum := keySum(sha256.Sum256([]byte(key)))
 
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
@@ -53,14 +55,9 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 
 		key := c.shards[id].items[itemID].key
 
-		// If the key is empty we continue, this is when the queue is empty at the start
-		if key == 0 {
-			continue
-		}
-
 		// We check if the key matches the key we search. The first match is the newest entry
 		// of the key. We test if it is within the maxAge range. If it is not we break.
-		if key == keyHash {
+		if key == keyHash && c.shards[id].items[itemID].sum == sum {
 
 			if now-c.shards[id].items[itemID].modTime > maxAge {
 				break
@@ -68,7 +65,7 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 
 			// appendKey. This can overwrite the found item, so we keep the value.
 			value := c.shards[id].items[itemID].value
-			c.appendKey(key, id, value)
+			c.appendKey(key, sum, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
diff --git a/cache/set.go b/cache/set.go
index ef527de..823d970 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -15,6 +15,7 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"time"
 
 	"github.com/cespare/xxhash"
@@ -27,6 +28,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	// hash the key with xxhash and make the id
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
+	sum := keySum(sha256.Sum256([]byte(key)))
 
 	// We make sure the shard exists, if it doesn't we create one
 	if c.shards[id] == nil {
@@ -48,7 +50,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 		}
 
 		// If the key exists we update the value and modtime.
-		if c.shards[id].items[itemID].key == keyHash {
+		if c.shards[id].items[itemID].key == keyHash && c.shards[id].items[itemID].sum == sum {
 
 			c.shards[id].items[itemID].value = value
 			c.shards[id].items[itemID].modTime = uint64(time.Now().UnixNano())
@@ -60,7 +62,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	}
 
 	// appendKey, it couldn't be updated.
-	c.appendKey(keyHash, id, value)
+	c.appendKey(keyHash, sum, id, value)
 
 	// We unlock the shard
 	c.shards[id].lock.Unlock()
@@ -68,7 +70,7 @@ func (c *SpearCache) Set(key string, value interface{}) {
 
 // appendKey is used to append a key to the cache. This is called by both
 // set and get commands. This should only be called when a shard is already unlocked.
-func (c *SpearCache) appendKey(keyHash uint64, id uint64, value interface{}) {
+func (c *SpearCache) appendKey(keyHash uint64, sum keySum, id uint64, value interface{}) {
 
 	// if the cursor of the queue is longer than defaultItems - 1, the cursor is reset to zero
 	if c.shards[id].cursor > defaultItems-1 {
@@ -81,6 +83,7 @@ func (c *SpearCache) appendKey(keyHash uint64, id uint64, value interface{}) {
 	// A cache get will always retrieve the latest key value, if the key exists and is not yet expired.
 	c.shards[id].items[c.shards[id].cursor] = item{
 		key:     keyHash,
+		sum:     sum,
 		value:   value,
 		modTime: uint64(time.Now().UnixNano()),
 	}
diff --git a/cache/shard.go b/cache/shard.go
index c872b53..1c9d014 100644
--- a/cache/shard.go
+++ b/cache/shard.go
@@ -15,6 +15,7 @@
 package cache
 
 import (
+	"crypto/sha256"
 	"sync"
 )
 
@@ -26,10 +27,15 @@ type shard struct {
 	cursor int
 }
 
+// keySum identifies a key. The xxhash of a key selects the shard and allows to search a key fast, but
+// different keys with the same xxhash are easily made. Keys are equal when keySum is equal.
+type keySum [sha256.Size]byte
+
 // Each shard contains an array (yes array not slice) of item.
 type item struct {
 	modTime uint64
 	key     uint64
+	sum     keySum
 	value   interface{}
 }
 
-- 
2.43.0


From b49a6df04f41337e77c5cdf2c0da0357ba4ca0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 04/49] fix: do not share a rate limit between different
 clients

Address and User-Agent were joined without separator, so that for example
10.0.0.1 with agent "1" used the budget of 10.0.0.11 without agent.
---
 guard/limiter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..9fe116f 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -56,7 +56,10 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 
 		remoteAddr := router.StripHostPort(r.RemoteAddr)
 		if !l.FilterOnIP {
-			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
+
+			// An address and User-Agent never contain a new line, without it different
+			// combinations of address and User-Agent could result in the same key.
+			remoteAddr = remoteAddr + "\n" + r.Header.Get("User-Agent")
 		}
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
-- 
2.43.0


From 0a3113c4e4b6b4a57b0810430cc1df0b5111513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 05/49] fix: use one rate limit for concurrent first requests
 of a client

Requests of a new client that arrived at the same time each created their
own limit with a full budget.
---
 guard/limiter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fe116f..c08d10f 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -24,6 +25,7 @@ import (
 
 // Limiter is a type containing a MaguroHTTP Guard limiter
 type Limiter struct {
+	mu           sync.Mutex
 	cache        *cache.SpearCache
 	RatePerSec   rate.Limit
 	RateBurst    int
@@ -61,6 +63,9 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 			// combinations of address and User-Agent could result in the same key.
 			remoteAddr = remoteAddr + "\n" + r.Header.Get("User-Agent")
 		}
+
+		// Concurrent requests of the same client must find the same limit
+		l.mu.Lock()
 		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
 		switch {
@@ -73,6 +78,7 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		}
 
 		l.cache.Set(remoteAddr, limit)
+		l.mu.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From fc5586b8c3f0da4fd2855cbec02c8a63f4ab01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 06/49] fix: let unmatched clients pass a HTTP blacklist and
 stop them at a whitelist

---
 guard/firewall.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..dba8473 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -82,10 +82,11 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		}
 
 		if f.Blacklisting {
-			f.ErrorHandler(w, r, 403)
+			handler.ServeHTTP(w, r)
 			return
 		}
-		handler.ServeHTTP(w, r)
+
+		f.ErrorHandler(w, r, 403)
 		return
 	}
 }
-- 
2.43.0


From 363431199ed7a2563157078e21ead89690fc543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 07/49] fix: answer 401 by default and share no lazily set
 state in basic authentication

---
 guard/basicauth.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..6400c04 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -50,16 +50,6 @@ type AuthUser struct {
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
 
-		// Check if we have a user-provided error handler, else set a default
-		if b.UnauthorizedHandler == nil {
-			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-				switch code {
-				case 403:
-					http.Error(w, "Forbidden", 403)
-				}
-			})
-		}
-
 		// Check that the provided details match
 		if !b.authenticate(r) {
 			b.requestAuth(w, r)
@@ -113,7 +103,7 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 
 	// Default to Simple mode if no AuthFunc is defined.
 	if b.AuthFunc == nil {
-		b.AuthFunc = b.simpleBasicAuthFunc
+		return b.simpleBasicAuthFunc(givenUser, givenPass, r)
 	}
 
 	return b.AuthFunc(givenUser, givenPass, r)
@@ -141,6 +131,12 @@ func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool
 // Require authentication, and serve our error handler otherwise.
 func (b *BasicAuth) requestAuth(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("WWW-Authenticate", fmt.Sprintf(`Basic realm=%q`, b.Realm))
+
+	// Check if we have a user-provided error handler, else use a default
+	if b.UnauthorizedHandler == nil {
+		http.Error(w, "Unauthorized", 401)
+		return
+	}
 	b.UnauthorizedHandler(w, r, 401)
 }
 
-- 
2.43.0


From 596b81dcb30b96171f8b2b95be6f92fd7cc83be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 08/49] fix: never authenticate a user that is not configured

---
 guard/basicauth.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 6400c04..135a0b7 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -113,6 +113,11 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 // the User and Password set in the Options struct.
 func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool {
 
+	// A user that isn't configured never authenticates
+	if _, ok := b.Users[user]; !ok {
+		return false
+	}
+
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-- 
2.43.0


From 834f755d04c22e23ee531a17fb3b0cd77b92feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 09/49] fix: never list the contents of a directory

---
 tuna/handledownload.go | 2 +-
 tuna/handleserve.go    | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..ef5bee8 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -107,7 +107,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// If the request path is not the index, and the file does exist in ServeDir
 			// the file is served and forced to be downloaded by the recipient.
 			// If the file doesn't exist, a 404 error is returned.
-		} else if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		} else if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && !f.IsDir() {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 2aee95e..86af4d3 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -17,6 +17,7 @@ package tuna
 import (
 	"net/http"
 	"os"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/router"
 )
@@ -46,8 +47,9 @@ func (s *Server) handleServe() http.HandlerFunc {
 		}
 
 		// Serve the file that is requested by path if it esists in ServeDir.
-		// If the requested path doesn't exist, return a 404 error
-		if _, err := os.Stat(cfg.Serve.ServeDir + path); err == nil {
+		// If the requested path doesn't exist, return a 404 error. A directory is
+		// only redirected to its index, and never listed.
+		if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && !(f.IsDir() && strings.HasSuffix(r.URL.Path, "/")) {
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-- 
2.43.0


From 5ef7cca038bbcbfbed8358545f926e5f3293acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 10/49] fix: send custom error pages with the status of the
 error

---
 tuna/handleerror.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..04d099f 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,10 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
+	"mime"
 	"net/http"
-	"os"
+	"path/filepath"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -44,9 +46,14 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 	}
 
 	// Custom error pages can be set in the configuration.
+	// The page always gets the status of the error, whatever headers the request has.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		if page, err := ioutil.ReadFile(val); err == nil {
+			if ctype := mime.TypeByExtension(filepath.Ext(val)); ctype != "" {
+				w.Header().Set("Content-Type", ctype)
+			}
+			w.WriteHeader(errorCode)
+			s.WriteString(w, string(page))
 			return
 		}
 	}
-- 
2.43.0


From 7c8898643e992fa39c94ca92fe3780313da9adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 11/49] fix: do not let a virtual host add proxy routes to
 other hosts

---
 tuna/routes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tuna/routes.go b/tuna/routes.go
index f893962..325ddea 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -48,6 +48,12 @@ func (s *Server) addRoutesFromConfig() {
 			// Start with proxy
 			if s.Vhosts[vhost].Proxy.Enabled {
 				for host := range s.Vhosts[vhost].Proxy.Rules {
+
+					// A virtual host only has a say in requests for its own host
+					if host != vhost {
+						continue
+					}
+
 					for _, mtd := range s.Vhosts[vhost].Proxy.Methods {
 						s.Router.AddRoute(host, "/", true, mtd, "*", s.handleProxy())
 					}
-- 
2.43.0


From c2d3f3de96e743dbbbff43f1cd40a90de84fede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 12/49] fix: never let the request target choose the proxy
 upstream

---
 tuna/handleproxy.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..1a8f71f 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,7 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -53,9 +54,19 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				return
 			}
 
+			// The request target is only appended to the proxy host if it is a path. Any other form
+			// (absolute, opaque, authority) could otherwise become part of the proxy host.
+			target := r.RequestURI
+			if !strings.HasPrefix(target, "/") {
+				target = "/" + strings.TrimPrefix(r.URL.EscapedPath(), "/")
+				if r.URL.RawQuery != "" {
+					target += "?" + r.URL.RawQuery
+				}
+			}
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
+			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
 			if err != nil {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From 7d5f4c3befb7cec71eb0de0016353df49c5d1947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 13/49] fix: do not add request headers or decompress responses
 when proxying

---
 tuna/handleproxy.go | 5 +++++
 tuna/server.go      | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 1a8f71f..0529240 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -78,6 +78,11 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// We clone the header of the original request
 			req.Header = cloneHeader(r.Header)
 
+			// Without a User-Agent of the client none is sent
+			if _, ok := req.Header["User-Agent"]; !ok {
+				req.Header.Set("User-Agent", "")
+			}
+
 			// For proxy purposes we keep the original remote address in the request
 			req.RemoteAddr = r.RemoteAddr
 
diff --git a/tuna/server.go b/tuna/server.go
index e38e907..572ee53 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -106,6 +106,7 @@ func NewInstance(c CoreConfig) *Server {
 			KeepAlive: 60 * time.Second,
 			DualStack: true,
 		}).DialContext,
+		DisableCompression:    true,
 		MaxIdleConns:          100,
 		IdleConnTimeout:       60 * time.Second,
 		TLSHandshakeTimeout:   8 * time.Second,
@@ -197,6 +198,7 @@ func NewInstanceFromConfig(p string) *Server {
 			KeepAlive: 60 * time.Second,
 			DualStack: true,
 		}).DialContext,
+		DisableCompression:    true,
 		MaxIdleConns:          100,
 		IdleConnTimeout:       60 * time.Second,
 		TLSHandshakeTimeout:   8 * time.Second,
-- 
2.43.0


From b6ebed81f3515f613258570855d1d1b6de2d6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 14/49] fix: do not cut a proxied request target at a number
 sign

---
 tuna/handleproxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 0529240..f23176e 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -64,6 +64,9 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				}
 			}
 
+			// A request target has no fragment, a number sign is part of the path or query
+			target = strings.Replace(target, "#", "%23", -1)
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
 			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
-- 
2.43.0


From 4a8e2dcabf042178f7b348c043aa2bcf862b3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 15/49] fix: answer 502 when the upstream sends no final status

---
 tuna/handleproxy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f23176e..6fc85f1 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -92,6 +92,14 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// the new request is executed with a http.RoundTripper.
 			if resp, err := s.Transport.RoundTrip(req); err == nil {
 
+				// A status that is no final response cannot be proxied back
+				if resp.StatusCode < 200 {
+					err = resp.Body.Close()
+					s.Log(debug.LogError, err)
+					s.HandleError(w, r, 502)
+					return
+				}
+
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
 
-- 
2.43.0


From 217074fa7753a3bc34aef895606d4e2aff90e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 16/49] fix: abort the response when a proxied body is
 incomplete

---
 tuna/handleproxy.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 6fc85f1..f26d4ce 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -110,13 +110,18 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				w.WriteHeader(resp.StatusCode)
 
 				// Copy back the response body to the ResponseWriter
-				_, err = io.Copy(w, resp.Body)
-				s.Log(debug.LogError, err)
+				_, copyErr := io.Copy(w, resp.Body)
+				s.Log(debug.LogError, copyErr)
 
 				// Properly close response body
 				err = resp.Body.Close()
 				s.Log(debug.LogError, err)
 				s.LogNetwork(resp.StatusCode, r)
+
+				// An incomplete response body must not look complete to the client
+				if copyErr != nil {
+					panic(http.ErrAbortHandler)
+				}
 			} else {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From 80d459450a1f1fda4f0192ed165752f1b489f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 17/49] fix: load metrics before the first request is counted

---
 tuna/metrics.go | 9 +++++++--
 tuna/server.go  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..58eaf02 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -98,8 +98,8 @@ func (s *Server) handleMetrics() http.HandlerFunc {
 	}
 }
 
-// Metrics Daemon
-func (s *Server) metricsDaemon() {
+// Function to load metrics, needs to be called before requests are handled
+func (s *Server) loadMetrics() {
 
 	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
@@ -143,6 +143,11 @@ func (s *Server) metricsDaemon() {
 	s.Log(debug.LogError, err)
 
 	// Occasionally flush metrics to disk
+	go s.metricsDaemon()
+}
+
+// Metrics Daemon
+func (s *Server) metricsDaemon() {
 	for {
 		time.Sleep(20 * time.Minute)
 		s.flushMetrics()
diff --git a/tuna/server.go b/tuna/server.go
index 572ee53..863c15a 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -188,7 +188,7 @@ func NewInstanceFromConfig(p string) *Server {
 	s.addRoutesFromConfig()
 
 	// Handle metrics
-	go s.metricsDaemon()
+	s.loadMetrics()
 
 	// Define http transport
 	s.Transport = &http.Transport{
-- 
2.43.0


From b0fa786c3c50b23107085f57ed3e65a0120392b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 18/49] fix: do not lose counts of paths that are not valid
 UTF-8

---
 tuna/metrics.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 58eaf02..56ed668 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -43,6 +44,10 @@ type metricsData struct {
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
 	if md.enabled {
+
+		// Metrics are saved in JSON, which can only hold valid UTF-8
+		p = strings.ToValidUTF8(p, "\uFFFD")
+
 		md.mu.Lock()
 		if _, ok := md.Paths[e]; ok {
 			if _, ok := md.Paths[e][p]; ok {
-- 
2.43.0


From d9c679d6abe9a5429b24653fdc699ccb02de88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 19/49] fix: accept a metrics file without paths

---
 tuna/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 56ed668..355c2ed 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -142,6 +142,9 @@ func (s *Server) loadMetrics() {
 
 	s.metrics.TotalRequests = md.TotalRequests
 	s.metrics.Paths = md.Paths
+	if s.metrics.Paths == nil {
+		s.metrics.Paths = make(map[int]map[string]int)
+	}
 	s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
 
 	err = file.Close()
-- 
2.43.0


From fcfcdda62d4f4f518992e93611b9aca7655bb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 20/49] fix: flush metrics periodically from the first run on

---
 tuna/metrics.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 355c2ed..d087518 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -120,6 +120,7 @@ func (s *Server) loadMetrics() {
 			enabled: s.Cfg.Core.Metrics.Enabled,
 			Paths:   make(map[int]map[string]int),
 		}
+		go s.metricsDaemon()
 		return
 	}
 
-- 
2.43.0


From 702d0f03a02373a6e36d75ef581c6d197e5d2c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 21/49] fix: keep the metrics file when metrics are not
 collected

---
 tuna/serve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..64cf9e9 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -58,7 +58,7 @@ func (s *Server) Serve() {
 				defer cancel()
 
 				// Flush metrics on server stop
-				if s.Cfg.Core.Metrics.Enabled {
+				if s.metrics.enabled {
 					s.flushMetrics()
 				}
 
-- 
2.43.0


From 8b2418de3fad5261325dfded0b4713f0bd697316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 22/49] fix: replace the metrics file in one step

---
 tuna/metrics.go | 56 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index d087518..2b6e963 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path/filepath"
 	"strings"
 	"sync"
 	"time"
@@ -32,6 +33,7 @@ import (
 // Metrics data can be accessed concurrently
 type metricsData struct {
 	mu            sync.Mutex
+	flushMu       sync.Mutex
 	enabled       bool
 	TotalRequests int
 	Paths         map[int]map[string]int
@@ -164,22 +166,50 @@ func (s *Server) metricsDaemon() {
 }
 
 // This function flushes metricsData to a file
+// The file is replaced at once, a crash or failing write leaves the previous file intact
 func (s *Server) flushMetrics() {
-	var mdout *os.File
-	var err error
-
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
-
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
+	s.metrics.flushMu.Lock()
+	defer s.metrics.flushMu.Unlock()
 
 	s.metrics.mu.Lock()
-	bs, err := json.MarshalIndent(s.metrics, "", "  ")
-	s.Log(debug.LogError, err)
+	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.metrics.mu.Unlock()
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
-	s.Log(debug.LogError, err)
+	// Write through a symbolic link instead of replacing it
+	out := s.Cfg.Core.Metrics.Out
+	if target, err := filepath.EvalSymlinks(out); err == nil {
+		out = target
+	}
+
+	if err := writeFileAtomic(out, bs); err != nil {
+		s.Log(debug.LogError, err)
+	}
+}
+
+// Function to write a file completely or not at all
+func writeFileAtomic(out string, bs []byte) error {
+	tmp := out + ".tmp"
+	file, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return err
+	}
+
+	_, err = file.Write(bs)
+	if err == nil {
+		err = file.Sync()
+	}
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, out)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
 }
-- 
2.43.0


From 0b9e0ba4a4a0433a4ea6105a8a6129c19f4d12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 23/49] fix: do not hold the metrics lock while sending the
 metrics page

---
 tuna/metrics.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 2b6e963..16b9488 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -68,27 +69,23 @@ func (md *metricsData) concat(e int, p string) {
 }
 
 // Function to display metrics data
+// The data is rendered first, a slow reader must not keep the metrics locked
 func (md *metricsData) display(o io.Writer) error {
-	md.mu.Lock()
+	var b bytes.Buffer
 
-	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
-		return err
-	}
+	md.mu.Lock()
+	fmt.Fprintf(&b, "<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)
 	for k, v := range md.Paths {
-		if _, err := io.WriteString(o, fmt.Sprintf("<br><b>%d</b><ul>", k)); err != nil {
-			return err
-		}
+		fmt.Fprintf(&b, "<br><b>%d</b><ul>", k)
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
-				return err
-			}
-		}
-		if _, err := io.WriteString(o, fmt.Sprintf("</ul>")); err != nil {
-			return err
+			fmt.Fprintf(&b, "<li>Amount: %d - Path: %s</li>", a, p)
 		}
+		b.WriteString("</ul>")
 	}
 	md.mu.Unlock()
-	return nil
+
+	_, err := b.WriteTo(o)
+	return err
 }
 
 func (s *Server) handleMetrics() http.HandlerFunc {
-- 
2.43.0


From 8c646fc06b21b0262d6ae9f57b97a5a19558062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 24/49] fix: escape paths on the metrics page

---
 tuna/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 16b9488..029308d 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	stdhtml "html"
 	"io"
 	"net/http"
 	"os"
@@ -78,7 +79,7 @@ func (md *metricsData) display(o io.Writer) error {
 	for k, v := range md.Paths {
 		fmt.Fprintf(&b, "<br><b>%d</b><ul>", k)
 		for p, a := range v {
-			fmt.Fprintf(&b, "<li>Amount: %d - Path: %s</li>", a, p)
+			fmt.Fprintf(&b, "<li>Amount: %d - Path: %s</li>", a, stdhtml.EscapeString(p))
 		}
 		b.WriteString("</ul>")
 	}
-- 
2.43.0


From 0ba8c5dd5f50df11758cf88b6720e961fbf16e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:40 +0000
Subject: [PATCH 25/49] fix: let running requests finish when the server is
 stopped

---
 tuna/serve.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index 64cf9e9..4aa0b3f 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -45,10 +45,10 @@ func (s *Server) Serve() {
 		ErrorLog:          s.logInterface.Instance,
 	}
 
+	sig := make(chan os.Signal, 1)
+	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
-		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
 			case signal := <-sig:
@@ -66,7 +66,11 @@ func (s *Server) Serve() {
 				if err := server.Shutdown(ctx); err != nil {
 					s.Log(debug.LogNone, fmt.Errorf("could not gracefully shutdown the server: %v", err))
 				}
-				close(sig)
+
+				// Flush again to include the requests finished during shutdown
+				if s.metrics.enabled {
+					s.flushMetrics()
+				}
 				os.Exit(1)
 			}
 		}
@@ -94,7 +98,7 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 
@@ -102,8 +106,11 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
-		if err != nil {
+		if err != nil && err != http.ErrServerClosed {
 			panic(err)
 		}
 	}
+
+	// The server is stopping, the signal handler ends the process when all requests are done
+	select {}
 }
-- 
2.43.0


From bb30f03516afa75d25063854b476dcc86086a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 26/49] fix: never serve plain HTTP when TLS is enabled

---
 tuna/serve.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index 4aa0b3f..952b0ef 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -17,6 +17,7 @@ package tuna
 import (
 	"context"
 	"fmt"
+	"log"
 	"net/http"
 	"os"
 	"os/signal"
@@ -79,7 +80,13 @@ func (s *Server) Serve() {
 	switch {
 
 	// If TLS is enabled the server will start in TLS
-	case s.Cfg.Core.TLS.Enabled && s.httpCheckTLS():
+	case s.Cfg.Core.TLS.Enabled:
+
+		// Without certificates the server must not fall back to plain HTTP
+		if !s.httpCheckTLS() {
+			log.Fatal("TLS is enabled but the certificates cannot be found, check TLSCert and TLSKey")
+		}
+
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s with TLS", Version, s.Cfg.Core.Port))
 		tlsc := s.httpCreateTLSConfig()
 
-- 
2.43.0


From f43f7d93522369eb3a74374c48ba766b406d4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 27/49] fix: require a serve directory and index for every
 served site

---
 tuna/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..80ef864 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -268,7 +268,7 @@ func (c *Config) Validate(p string, isVhost bool) {
 	}
 
 	// Test serve
-	if !c.Proxy.Enabled && c.Serve.Download.Enabled {
+	if !c.Proxy.Enabled && (c.Serve.Download.Enabled || len(c.Serve.Methods) > 0) {
 		if c.Serve.ServeDir == "" || c.Serve.ServeIndex == "" {
 			log.Fatalf("%s: The server configuration has missing elements: check ServeDir and ServeIndex", p)
 		}
-- 
2.43.0


From e128782c50d7d3181cca890994365272f23bb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:59 +0000
Subject: [PATCH 28/49] fix: refuse JSON configurations that end half way

---
 tuna/config.go | 17 ++++++++++++++++-
 tuna/server.go |  3 +--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/tuna/config.go b/tuna/config.go
index 80ef864..c9f733f 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -15,6 +15,9 @@
 package tuna
 
 import (
+	"bytes"
+	"encoding/json"
+	"io"
 	"io/ioutil"
 	"log"
 	"os"
@@ -192,12 +195,24 @@ func LoadConfigFromFile(p string, c *Config) {
 		log.Print(err)
 	}
 
-	err = hcl.Unmarshal(data, c)
+	err = decodeConfig(data, c)
 	if err != nil {
 		log.Fatalf("%s: %v", p, err)
 	}
 }
 
+// decodeConfig decodes a configuration written in HCL or JSON. The HCL library
+// accepts JSON that ends half way, which would silently lose the remainder.
+func decodeConfig(data []byte, c *Config) error {
+	if data = bytes.TrimSpace(data); len(data) > 0 && data[0] == '{' {
+		var raw json.RawMessage
+		if err := json.NewDecoder(bytes.NewReader(data)).Decode(&raw); err == io.ErrUnexpectedEOF {
+			return err
+		}
+	}
+	return hcl.Unmarshal(data, c)
+}
+
 // Validate can be used to validate a Config type
 func (c *Config) Validate(p string, isVhost bool) {
 
diff --git a/tuna/server.go b/tuna/server.go
index 863c15a..df80dcf 100644
--- a/tuna/server.go
+++ b/tuna/server.go
@@ -23,7 +23,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/hashicorp/hcl"
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
 )
@@ -146,7 +145,7 @@ func NewInstanceFromConfig(p string) *Server {
 		log.Fatal(err)
 	}
 
-	err = hcl.Unmarshal(data, &cfg)
+	err = decodeConfig(data, &cfg)
 	if err != nil {
 		log.Fatalf("%s: %v", p, err)
 	}
-- 
2.43.0


From 13902efc8235276dc7bfd0ced1b653799cafe633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:50 +0000
Subject: [PATCH 29/49] fix: add the routes of a site in a fixed order

---
 tuna/routes.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tuna/routes.go b/tuna/routes.go
index 325ddea..4d2a552 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/redmaner/MaguroHTTP/guard"
@@ -82,8 +83,9 @@ func (s *Server) addRoutesFromConfig() {
 			} else {
 
 				// Loop over each supported method
-				for path, method := range s.Vhosts[vhost].Serve.Methods {
+				for _, path := range sortedPaths(s.Vhosts[vhost].Serve.Methods) {
 
+					method := s.Vhosts[vhost].Serve.Methods[path]
 					var fallback bool
 					contentType := ";"
 
@@ -159,8 +161,9 @@ func (s *Server) addRoutesFromConfig() {
 		} else {
 			// Normal serve is enabled
 			// Loop over each supported method
-			for path, method := range s.Cfg.Serve.Methods {
+			for _, path := range sortedPaths(s.Cfg.Serve.Methods) {
 
+				method := s.Cfg.Serve.Methods[path]
 				var fallback bool
 				contentType := ";"
 
@@ -201,3 +204,14 @@ func (s *Server) addRoutesFromConfig() {
 		s.Router.UseMiddleware(router.DefaultHost, s.Cfg.Core.Metrics.Path, router.MiddlewareHandlerFunc(ba.Authenticate))
 	}
 }
+
+// sortedPaths returns the paths of methods in the order in which routes are added.
+// A path and the same path with a trailing slash are one route, the latter is added last.
+func sortedPaths(methods map[string]string) []string {
+	paths := make([]string, 0, len(methods))
+	for path := range methods {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
-- 
2.43.0


From df7f9fad4c48d4643bcdec8b4aa581d90b11bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 30/49] fix: add the middleware of a path once

---
 tuna/routes.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tuna/routes.go b/tuna/routes.go
index 4d2a552..eed839e 100644
--- a/tuna/routes.go
+++ b/tuna/routes.go
@@ -106,6 +106,11 @@ func (s *Server) addRoutesFromConfig() {
 						s.Router.AddRoute(vhost, path, fallback, method, contentType, s.handleServe())
 					}
 
+					// The middleware of a path is added once, also if the path is listed without a slash as well
+					if _, ok := s.Vhosts[vhost].Serve.Methods[strings.TrimSuffix(path, "/")]; ok && fallback {
+						continue
+					}
+
 					// Add firewall as middleware if enabled
 					if s.Vhosts[vhost].Guard.Firewall.Enabled {
 						s.Router.UseMiddleware(vhost, path, router.MiddlewareHandlerFunc(firewall.BlockHTTP))
@@ -184,6 +189,11 @@ func (s *Server) addRoutesFromConfig() {
 					s.Router.AddRoute(router.DefaultHost, path, fallback, method, contentType, s.handleServe())
 				}
 
+				// The middleware of a path is added once, also if the path is listed without a slash as well
+				if _, ok := s.Cfg.Serve.Methods[strings.TrimSuffix(path, "/")]; ok && fallback {
+					continue
+				}
+
 				// Add firewall as middleware if enabled
 				if s.Cfg.Guard.Firewall.Enabled {
 					s.Router.UseMiddleware(router.DefaultHost, path, router.MiddlewareHandlerFunc(firewall.BlockHTTP))
-- 
2.43.0


From 9dcc28357618248d615fbe7121c9eedc1315697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 31/49] fix: log request targets in their encoded form

---
 tuna/log.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tuna/log.go b/tuna/log.go
index df49263..75d73d2 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -17,11 +17,15 @@ package tuna
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
 )
 
+// logEscaper escapes what is not escaped in hosts and queries
+var logEscaper = strings.NewReplacer(" ", "%20", "\t", "%09")
+
 // Log is a function to log messages using the debug.Logger type
 func (s *Server) Log(logLevel int, err error) {
 	s.logInterface.Log(logLevel, err)
@@ -31,5 +35,11 @@ func (s *Server) Log(logLevel int, err error) {
 func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	host := router.StripHostPort(r.Host)
 	s.metrics.concat(statusCode, host+r.URL.Path)
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s%s%s IP=%s User-Agent=%s", statusCode, r.Method, r.Host, r.URL.Path, r.URL.RawQuery, r.RemoteAddr, r.Header.Get("User-Agent")))
+
+	// The request target is logged in its encoded form, to prevent that it ends the line or adds fields to it
+	target := r.URL.EscapedPath()
+	if r.URL.RawQuery != "" {
+		target += "?" + r.URL.RawQuery
+	}
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s IP=%s User-Agent=%s", statusCode, r.Method, logEscaper.Replace(r.Host+target), r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From 48437b840794992b475a7d996cad0adbf2f5b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 32/49] fix: list downloads when files or directories cannot be
 read

---
 tuna/handledownload.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index ef5bee8..518aa03 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -48,8 +48,10 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		// Collect downloadable files
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
-				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
-					if f.IsDir() {
+				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
+
+					// Files that cannot be read, or are removed in the meantime, are left out
+					if err != nil || f.IsDir() {
 						return nil
 					}
 
-- 
2.43.0


From 96f0d1d611a76fc350846c2181279ddbb689643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 33/49] fix: only offer regular files as download

---
 tuna/handledownload.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 518aa03..4e4b7ae 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -59,6 +59,11 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					// Only regular files can be downloaded. Symbolic links are followed.
+					if f, err = os.Stat(path); err != nil || !f.Mode().IsRegular() {
+						return nil
+					}
+
 					dlurls = append(dlurls, fileInfo{
 						Name:    f.Name(),
 						Size:    f.Size(),
@@ -109,7 +114,7 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// If the request path is not the index, and the file does exist in ServeDir
 			// the file is served and forced to be downloaded by the recipient.
 			// If the file doesn't exist, a 404 error is returned.
-		} else if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && !f.IsDir() {
+		} else if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && f.Mode().IsRegular() {
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-- 
2.43.0


From 2bc6e2d3c4bebe21971f2b78d1545bdd9a7fc626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:45 +0000
Subject: [PATCH 34/49] fix: link downloads by their path and escape their
 names

---
 tuna/handledownload.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 4e4b7ae..67428e6 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"html/template"
 	"net/http"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -64,8 +65,13 @@ func (s *Server) handleDownload() http.HandlerFunc {
 						return nil
 					}
 
+					name, err := filepath.Rel(cfg.Serve.ServeDir, path)
+					if err != nil {
+						return err
+					}
+
 					dlurls = append(dlurls, fileInfo{
-						Name:    f.Name(),
+						Name:    name,
 						Size:    f.Size(),
 						ModTime: f.ModTime(),
 					})
@@ -95,7 +101,8 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				link := url.URL{Path: "/" + v.Name}
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="`, template.HTMLEscapeString(link.EscapedPath()), `">`, template.HTMLEscapeString(v.Name), `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
-- 
2.43.0


From 2870b14ecb9f0e461cd725b4dd0a785e0d856975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 35/49] fix: list downloads of an extension configured twice
 once

---
 tuna/handledownload.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 67428e6..0e347c5 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -48,7 +48,15 @@ func (s *Server) handleDownload() http.HandlerFunc {
 
 		// Collect downloadable files
 		if cfg.Serve.Download.Enabled {
+			listed := make(map[string]bool)
 			for _, v := range cfg.Serve.Download.Exts {
+
+				// An extension that is configured twice is listed once
+				if listed[v] {
+					continue
+				}
+				listed[v] = true
+
 				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
 
 					// Files that cannot be read, or are removed in the meantime, are left out
-- 
2.43.0


From 1b0281f5232d5c16a77bacd385c1a6464730504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 36/49] fix: send every file that is offered as download

---
 tuna/handledownload.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 0e347c5..5601023 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -130,10 +130,26 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			// the file is served and forced to be downloaded by the recipient.
 			// If the file doesn't exist, a 404 error is returned.
 		} else if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && f.Mode().IsRegular() {
+
+			// http.ServeFile would redirect requests for index.html and refuse names that are not valid UTF-8
+			file, err := os.Open(cfg.Serve.ServeDir + path)
+			if err == nil {
+				defer file.Close()
+				f, err = file.Stat()
+			}
+			if os.IsPermission(err) {
+				s.HandleError(w, r, 403)
+				return
+			}
+			if err != nil {
+				s.HandleError(w, r, 404)
+				return
+			}
+
 			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
 			w.Header().Set("Content-Disposition", "attachement")
 			s.setHeaders(w, cfg.Serve.Headers, false)
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
+			http.ServeContent(w, r, f.Name(), f.ModTime(), file)
 			s.LogNetwork(200, r)
 		} else {
 
-- 
2.43.0


From fb426130f7826623e607f47594236d4625c16521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 37/49] fix: send error pages as text/html

---
 tuna/handleerror.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 04d099f..c328861 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -62,8 +62,8 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From 3a5138919179b0fc1500e99ada2bde4ebbdfadff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:36 +0000
Subject: [PATCH 38/49] fix: never leave a truncated template behind

---
 tuna/templates.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tuna/templates.go b/tuna/templates.go
index b0737b7..3ad4b46 100644
--- a/tuna/templates.go
+++ b/tuna/templates.go
@@ -15,6 +15,7 @@
 package tuna
 
 import (
+	"io/ioutil"
 	"os"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,14 +46,7 @@ func (s *Server) generateTemplates() {
 
 	// Create error template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "error.html"); err != nil {
-		of, err := os.Create(tplDir + "error.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateError)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := createTemplate(tplDir+"error.html", html.PageTemplateStart+templateError+html.PageTemplateEnd)
 		s.Log(debug.LogError, err)
 	}
 
@@ -62,14 +56,7 @@ func (s *Server) generateTemplates() {
 
 	// Create download template when it doesn't exist yet
 	if _, err := os.Stat(tplDir + "download.html"); err != nil {
-		of, err := os.Create(tplDir + "download.html")
-		s.Log(debug.LogError, err)
-
-		s.WriteString(of, html.PageTemplateStart)
-		s.WriteString(of, templateDownload)
-		s.WriteString(of, html.PageTemplateEnd)
-
-		err = of.Close()
+		err := createTemplate(tplDir+"download.html", html.PageTemplateStart+templateDownload+html.PageTemplateEnd)
 		s.Log(debug.LogError, err)
 	}
 
@@ -78,3 +65,16 @@ func (s *Server) generateTemplates() {
 	s.templates.download.Init()
 
 }
+
+// createTemplate creates a template file. The file only gets its name when it was
+// written completely, to prevent that a truncated template is used afterwards.
+func createTemplate(file, content string) error {
+	err := ioutil.WriteFile(file+".tmp", []byte(content), 0666)
+	if err == nil {
+		err = os.Rename(file+".tmp", file)
+	}
+	if err != nil {
+		os.Remove(file + ".tmp")
+	}
+	return err
+}
-- 
2.43.0


From bdcba8d0a581829600e571fc4cf78562be2ff7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 39/49] fix: match routes of long paths in linear time

---
 router/middleware.go |  3 +++
 router/route.go      | 18 ++++++++++++++++--
 router/router.go     |  7 +++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/router/middleware.go b/router/middleware.go
index 24b9377..17cede1 100644
--- a/router/middleware.go
+++ b/router/middleware.go
@@ -76,4 +76,7 @@ func (sr *SRouter) UseMiddleware(host, path string, handler Middleware) {
 	pathRoute.middleware = append(pathRoute.middleware, handler)
 	sr.routes[host+path] = pathRoute
 
+	if len(host+path) > sr.longestRoute {
+		sr.longestRoute = len(host + path)
+	}
 }
diff --git a/router/route.go b/router/route.go
index 130c39e..84c2cc0 100644
--- a/router/route.go
+++ b/router/route.go
@@ -16,7 +16,6 @@ package router
 
 import (
 	"net/http"
-	"path"
 	"strings"
 )
 
@@ -147,7 +146,14 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 		// We haven't found an exact match, so we search for a subpath. For example:
 		// request has path /foo/bar. The path /foo/bar doesn't exist. So we search if
 		// the path /foo exists. We don't bother with fallback allowance just yet.
-		for pa := urlPath; pa != "/"; pa = path.Dir(pa) {
+		// Paths longer than the longest route can't match, these are skipped.
+		pa := urlPath
+		if longest := sr.longestRoute - len(host); longest < 1 {
+			pa = "/"
+		} else if len(pa) > longest {
+			pa = parentPath(pa[:longest+1])
+		}
+		for ; pa != "/"; pa = parentPath(pa) {
 			if route, ok := sr.routes[host+pa]; ok {
 				match = true
 				exactMatch = false
@@ -175,6 +181,14 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 	return match, exactMatch, pathRouteMatch
 }
 
+// parentPath returns the path above a cleaned path
+func parentPath(p string) string {
+	if i := strings.LastIndexByte(p, '/'); i > 0 {
+		return p[:i]
+	}
+	return "/"
+}
+
 func (mr *methodRoute) contentAllowed(contentType string) bool {
 
 	if mr.content == "*" {
diff --git a/router/router.go b/router/router.go
index e3ba012..acd640d 100644
--- a/router/router.go
+++ b/router/router.go
@@ -64,6 +64,9 @@ type SRouter struct {
 	mu     sync.RWMutex
 	routes map[string]pathRoute
 
+	// length of the longest host and path in routes
+	longestRoute int
+
 	// ErrorHandler allows to define a custom handler for errors. It takes ErrorHandler as type,
 	// which implements the http.Error function (w http.ResponseWriter, error string, code int).
 	ErrorHandler ErrorHandler
@@ -159,6 +162,10 @@ func (sr *SRouter) AddRoute(host, path string, fallback bool, method, content st
 		sr.routes[host+path] = pathRouteAdd
 	}
 
+	if len(host+path) > sr.longestRoute {
+		sr.longestRoute = len(host + path)
+	}
+
 	methodRouteAdd := methodRoute{
 		handler:      handler,
 		host:         host,
-- 
2.43.0


From c87462c1ff63b2d78df2c98d7fdcd1b4b543fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 40/49] fix: match firewall rules of long paths in linear time

---
 guard/firewall.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index dba8473..f854e29 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -43,6 +43,24 @@ func NewFirewall() *Firewall {
 	}
 }
 
+// parentPath returns the nearest path above p that is not longer than the longest rule
+func (f *Firewall) parentPath(p string) string {
+	longest := 0
+	for rule := range f.Rules {
+		if len(rule) > longest {
+			longest = len(rule)
+		}
+	}
+
+	if p = path.Dir(p); len(p) > longest {
+		p = path.Dir(p[:longest+1])
+	}
+	if p == "." {
+		return "/"
+	}
+	return p
+}
+
 // BlockHTTP is a middleware function to add a firewall to HTTP handlers
 func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
@@ -50,7 +68,7 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/"; pt = f.parentPath(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
@@ -98,7 +116,7 @@ func (f *Firewall) BlockProxy(handler http.HandlerFunc) http.HandlerFunc {
 		p := r.URL.Path
 		host := router.StripHostPort(r.RemoteAddr)
 
-		for pt := p; pt != "/"; pt = path.Dir(pt) {
+		for pt := p; pt != "/"; pt = f.parentPath(pt) {
 			if val, ok := f.Rules[pt]; ok {
 				for _, v := range val {
 					if v == host || v == "*" {
-- 
2.43.0


From d470c64d990d99ffd2c3695e84d153778be6530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 41/49] fix: end proxied requests when the client is gone

---
 tuna/handleproxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f26d4ce..3390def 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -78,6 +78,9 @@ func (s *Server) handleProxy() http.HandlerFunc {
 
 			req.Host = host
 
+			// When the client is gone the proxied request ends as well
+			req = req.WithContext(r.Context())
+
 			// We clone the header of the original request
 			req.Header = cloneHeader(r.Header)
 
-- 
2.43.0


From 227a8ebc9dcc8ced28d1933f8c8696615500575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 42/49] fix: do not admit everything when the rate is zero

---
 guard/limiter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index c08d10f..24fe31d 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -33,9 +33,13 @@ type Limiter struct {
 	FilterOnIP   bool
 }
 
+// maxRefill is the maximum amount of seconds in which a limit is refilled completely, which is 285 years.
+// With lower rates, zero included, rate.Limiter cannot express the time and would allow all events.
+const maxRefill = 9e9
+
 // NewLimiter returns a new guard.Limiter
 func NewLimiter(ratePerMin float64, rateBurst int, filterIP bool) *Limiter {
-	return &Limiter{
+	l := &Limiter{
 		cache:      cache.NewCache(),
 		RatePerSec: rate.Limit(ratePerMin / 60.00),
 		RateBurst:  rateBurst,
@@ -47,6 +51,12 @@ func NewLimiter(ratePerMin float64, rateBurst int, filterIP bool) *Limiter {
 		}),
 		FilterOnIP: filterIP,
 	}
+
+	if min := (rate.Limit(rateBurst) + 1) / maxRefill; l.RatePerSec < min {
+		l.RatePerSec = min
+	}
+
+	return l
 }
 
 // LimitHTTP is a HTTP middleware function that can be used to add rate limiting
-- 
2.43.0


From 121a972733d3014a35d9ae3ba286065bd53dd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 43/49] fix: do not match a host that contains a part of the
 path

---
 router/route.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router/route.go b/router/route.go
index 84c2cc0..9f9b72d 100644
--- a/router/route.go
+++ b/router/route.go
@@ -129,6 +129,12 @@ func (sr *SRouter) matchRoute(host, urlPath string) (bool, bool, pathRoute) {
 
 	var pathRouteMatch pathRoute
 
+	// A host never contains a slash. HTTP/2 allows clients to send one that does, in which case
+	// a part of the host would be matched as if it is a part of the path.
+	if strings.IndexByte(host, '/') > -1 {
+		return false, false, pathRouteMatch
+	}
+
 	// Set exact match to false
 	var exactMatch bool
 	var match bool
-- 
2.43.0


From 249a997c42bb60a073a7b102ef0e6168cc8e57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 44/49] fix: do not send spaces of a HTTP/2 query to the
 upstream

---
 tuna/handleproxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 3390def..10d2f7a 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -67,6 +67,9 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// A request target has no fragment, a number sign is part of the path or query
 			target = strings.Replace(target, "#", "%23", -1)
 
+			// Over HTTP/2 a query can hold spaces, in a HTTP/1.1 request line they separate its parts
+			target = strings.Replace(target, " ", "%20", -1)
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
 			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
-- 
2.43.0


From 861f0f47856c9e388e0e8781b656f78efdda44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 45/49] fix: serve index.html and redirect directories whatever
 their names

---
 tuna/handleserve.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 86af4d3..311bd53 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -16,6 +16,7 @@ package tuna
 
 import (
 	"net/http"
+	"net/url"
 	"os"
 	"strings"
 
@@ -49,16 +50,38 @@ func (s *Server) handleServe() http.HandlerFunc {
 		// Serve the file that is requested by path if it esists in ServeDir.
 		// If the requested path doesn't exist, return a 404 error. A directory is
 		// only redirected to its index, and never listed.
-		if f, err := os.Stat(cfg.Serve.ServeDir + path); err == nil && !(f.IsDir() && strings.HasSuffix(r.URL.Path, "/")) {
-			s.setHeaders(w, cfg.Serve.Headers, false)
-			w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
-			http.ServeFile(w, r, cfg.Serve.ServeDir+path)
-			s.LogNetwork(200, r)
-		} else {
+		f, err := os.Stat(cfg.Serve.ServeDir + path)
+		if err != nil || f.IsDir() && strings.HasSuffix(r.URL.Path, "/") {
 
 			// Path wasn't found, so we return a 404 not found error
 			s.HandleError(w, r, 404)
 			return
 		}
+
+		// http.ServeFile doesn't escape the name of the directory
+		if f.IsDir() {
+			index := url.URL{Path: r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:] + "/", RawQuery: r.URL.RawQuery}
+			s.setHeaders(w, cfg.Serve.Headers, false)
+			w.Header().Set("Location", index.String())
+			w.WriteHeader(301)
+			s.LogNetwork(301, r)
+			return
+		}
+
+		// http.ServeFile would redirect requests for index.html and refuse names that are not valid UTF-8
+		file, err := os.Open(cfg.Serve.ServeDir + path)
+		if err == nil {
+			defer file.Close()
+			f, err = file.Stat()
+		}
+		if err != nil {
+			s.HandleError(w, r, 404)
+			return
+		}
+
+		s.setHeaders(w, cfg.Serve.Headers, false)
+		w.Header().Set("Content-Type", getMIMEType(path, cfg.Serve.MIMETypes))
+		http.ServeContent(w, r, f.Name(), f.ModTime(), file)
+		s.LogNetwork(200, r)
 	}
 }
-- 
2.43.0


From f47fa63c6d029f7745198753c0374192c5379420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 46/49] fix: do not block on a served file that is not regular

---
 tuna/handleserve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 311bd53..b9fe1ec 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -68,6 +68,12 @@ func (s *Server) handleServe() http.HandlerFunc {
 			return
 		}
 
+		// Only regular files are served, opening anything else can block
+		if !f.Mode().IsRegular() {
+			s.HandleError(w, r, 404)
+			return
+		}
+
 		// http.ServeFile would redirect requests for index.html and refuse names that are not valid UTF-8
 		file, err := os.Open(cfg.Serve.ServeDir + path)
 		if err == nil {
-- 
2.43.0


From 8fc25b302238be4bc505f495c03145251c29ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 47/49] fix: answer with the error page of the site when a
 served file cannot be read

---
 tuna/handleserve.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index b9fe1ec..26d9446 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -80,6 +80,10 @@ func (s *Server) handleServe() http.HandlerFunc {
 			defer file.Close()
 			f, err = file.Stat()
 		}
+		if os.IsPermission(err) {
+			s.HandleError(w, r, 403)
+			return
+		}
 		if err != nil {
 			s.HandleError(w, r, 404)
 			return
-- 
2.43.0


From fff4fc8c07012e3aec6ed0db0444be620068ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 48/49] fix: escape spaces of a HTTP/2 method in the log

---
 tuna/log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tuna/log.go b/tuna/log.go
index 75d73d2..3222fff 100644
--- a/tuna/log.go
+++ b/tuna/log.go
@@ -23,7 +23,7 @@ import (
 	"github.com/redmaner/MaguroHTTP/router"
 )
 
-// logEscaper escapes what is not escaped in hosts and queries
+// logEscaper escapes what is not escaped in methods, hosts and queries
 var logEscaper = strings.NewReplacer(" ", "%20", "\t", "%09")
 
 // Log is a function to log messages using the debug.Logger type
@@ -41,5 +41,5 @@ func (s *Server) LogNetwork(statusCode int, r *http.Request) {
 	if r.URL.RawQuery != "" {
 		target += "?" + r.URL.RawQuery
 	}
-	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s IP=%s User-Agent=%s", statusCode, r.Method, logEscaper.Replace(r.Host+target), r.RemoteAddr, r.Header.Get("User-Agent")))
+	s.Log(debug.LogNet, fmt.Errorf("%d request=%s %s IP=%s User-Agent=%s", statusCode, logEscaper.Replace(r.Method), logEscaper.Replace(r.Host+target), r.RemoteAddr, r.Header.Get("User-Agent")))
 }
-- 
2.43.0


From 5dfc4c5f3c0fc4b854ec6ea45402b3ac1d23f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 49/49] fix: redirect respelt directory targets to the
 directory

The Location was relative to the cleaned path, while a client resolves it
against the target it sent. GET /a%2fdocs was redirected to /docs/.
---
 tuna/handleserve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tuna/handleserve.go b/tuna/handleserve.go
index 26d9446..9399581 100644
--- a/tuna/handleserve.go
+++ b/tuna/handleserve.go
@@ -58,9 +58,10 @@ func (s *Server) handleServe() http.HandlerFunc {
 			return
 		}
 
-		// http.ServeFile doesn't escape the name of the directory
+		// http.ServeFile doesn't escape the name of the directory. The requested
+		// target can differ from the path, so the whole path is sent
 		if f.IsDir() {
-			index := url.URL{Path: r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:] + "/", RawQuery: r.URL.RawQuery}
+			index := url.URL{Path: r.URL.Path + "/", RawQuery: r.URL.RawQuery}
 			s.setHeaders(w, cfg.Serve.Headers, false)
 			w.Header().Set("Location", index.String())
 			w.WriteHeader(301)
-- 
2.43.0

