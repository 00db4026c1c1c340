From e79e86362143fa8f6ac45960a6fdd796733d96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 01/78] fix: install the rebuilt ring before releasing the
 membership lock

Upsert and Remove released the lock before handing their node snapshot to
Ring.Build, so two concurrent mutations could install their rings in the
opposite order and leave ownership computed from the older member set.
---
 internal/cluster/membership.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 65fcc1f..7699d07 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -73,9 +73,12 @@ func (m *Membership) Upsert(n *Node) {
 	observers := m.observers
 	id := n.ID
 	state := n.State
-	m.mu.Unlock()
 
+	// Build under the membership lock: two concurrent mutations must
+	// install their rings in commit order.
 	m.ring.Build(nodes)
+	m.mu.Unlock()
+
 	notify(observers, id, state, version)
 }
 
@@ -123,9 +126,10 @@ func (m *Membership) Remove(id NodeID) bool {
 
 	version := m.ver.Next()
 	observers := m.observers
-	m.mu.Unlock()
 
 	m.ring.Build(nodes)
+	m.mu.Unlock()
+
 	// State NodeDead represents "removed from membership" for
 	// observer purposes; the node is gone from the map and will
 	// not appear in any subsequent List() call.
-- 
2.43.0


From 2db5b9817b3bbdfd493ceda6c8862c21a572dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 02/78] fix: rebuild the ring when Mark or Refute changes
 whether a node is dead

Upsert and Remove keep dead nodes out of ring ownership, but a node moved to
(or out of) NodeDead by Mark or Refute kept (or lost) its ownership until the
next Upsert or Remove of any node.
---
 internal/cluster/membership.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 7699d07..6017fa5 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -189,9 +189,14 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 
 	n.Incarnation++
 
+	rebuild := n.State == NodeDead || state == NodeDead // dead nodes own nothing
 	n.State = state
 	n.LastSeen = time.Now()
 
+	if rebuild {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -231,9 +236,14 @@ func (m *Membership) Refute(id NodeID) bool {
 
 	n.Incarnation++
 
+	rebuild := n.State == NodeDead // back into ring ownership
 	n.State = NodeAlive
 	n.LastSeen = time.Now()
 
+	if rebuild {
+		m.rebuildRingLocked()
+	}
+
 	version := m.ver.Next()
 	observers := m.observers
 
@@ -244,6 +254,19 @@ func (m *Membership) Refute(id NodeID) bool {
 	return true
 }
 
+// rebuildRingLocked recomputes ring ownership from the nodes that are
+// not dead. Caller holds m.mu.
+func (m *Membership) rebuildRingLocked() {
+	nodes := make([]*Node, 0, len(m.nodes))
+	for _, v := range m.nodes {
+		if v.State != NodeDead {
+			nodes = append(nodes, v)
+		}
+	}
+
+	m.ring.Build(nodes)
+}
+
 // notify invokes each observer in registration order with the
 // resolved state and version. Pulled out so the call sites read
 // "mutate, unlock, notify" uniformly without inline loops.
-- 
2.43.0


From 12fffd6ecb70f5ea1d2aa35379c7f3834bf7d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 03/78] fix: deliver events in version order under concurrent
 publishers

Publish stamped the version under the read lock and then sent, so two
publishers could deliver versions 2, 1 to a subscriber, which reads a version
step as a gap caused by drops.
---
 internal/eventbus/bus.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/eventbus/bus.go b/internal/eventbus/bus.go
index 1f2429b..2785796 100644
--- a/internal/eventbus/bus.go
+++ b/internal/eventbus/bus.go
@@ -127,11 +127,12 @@ func (b *Bus) Subscribe(ctx context.Context) (<-chan Event, func()) {
 // SWIM heartbeat goroutine drives publishes and must keep ticking
 // at its configured interval regardless of consumer health.
 func (b *Bus) Publish(evt Event) uint64 {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 
-	// Stamp the event under the read lock so version is
-	// monotonic across concurrent publishers.
+	// Stamp and fan out under the exclusive lock: with a shared lock
+	// two publishers could stamp in one order and deliver in the
+	// other, and subscribers would see versions go backwards.
 	version := b.version.Add(1)
 
 	evt.Version = version
-- 
2.43.0


From 2ddc7e28a92d38c3a22563a9cf6641420e5e34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 04/78] fix: count a recorded value only after min and max
 include it

GetStats could report a stat with a non-zero count while min and max still
held their MaxInt64/MinInt64 sentinels.
---
 pkg/stats/histogramcollector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index ee5270e..569647a 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -240,7 +240,6 @@ const errCorruptStatsMap = "histogramcollector: stats map contains non-*statShar
 func (c *HistogramStatsCollector) record(key string, value int64) {
 	shard := c.shard(key)
 
-	shard.count.Add(1)
 	shard.sum.Add(value)
 
 	for {
@@ -257,6 +256,10 @@ func (c *HistogramStatsCollector) record(key string, value int64) {
 		}
 	}
 
+	// Publish the recording last: GetStats skips a shard whose count is zero, so
+	// a non-zero count implies min and max no longer hold their sentinels.
+	shard.count.Add(1)
+
 	if !shard.samplesMu.TryLock() {
 		return
 	}
-- 
2.43.0


From 55c6b59a2506f06ecec5eb41e4cf3336e9acf88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 05/78] fix: compute the median of large samples without
 integer overflow

---
 pkg/stats/histogramcollector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/stats/histogramcollector.go b/pkg/stats/histogramcollector.go
index 569647a..c000536 100644
--- a/pkg/stats/histogramcollector.go
+++ b/pkg/stats/histogramcollector.go
@@ -285,7 +285,7 @@ func medianOf(sorted []int64) float64 {
 		return float64(sorted[n/2])
 	}
 
-	return float64(sorted[n/2-1]+sorted[n/2]) / 2
+	return float64(sorted[n/2-1])/2 + float64(sorted[n/2])/2
 }
 
 // percentileOf returns the pth percentile of a sorted slice using
-- 
2.43.0


From 97ed467e7bf15cd6be79cc313c4c67884ebe4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 06/78] fix: make concurrent Close calls on a client safe

---
 pkg/client/client.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 0527ef7..4b34874 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -58,6 +58,7 @@ type Client struct {
 	refreshInterval time.Duration
 	refreshStopCh   chan struct{}
 	refreshDoneCh   chan struct{}
+	closeOnce       sync.Once
 
 	logger *slog.Logger
 }
@@ -127,12 +128,8 @@ func (c *Client) Endpoints() []string {
 // should cancel via their request context if needed.
 func (c *Client) Close() error {
 	if c.refreshStopCh != nil {
-		select {
-		case <-c.refreshStopCh:
-			// already closed
-		default:
-			close(c.refreshStopCh)
-		}
+		// Concurrent Close calls must not close the channel twice.
+		c.closeOnce.Do(func() { close(c.refreshStopCh) })
 
 		if c.refreshDoneCh != nil {
 			<-c.refreshDoneCh
-- 
2.43.0


From 2dfaeecef8ca5b33aaf70ef0230afec4f8896f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 07/78] fix: keep the expiry of batch items with a
 sub-millisecond TTL

---
 pkg/client/batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/client/batch.go b/pkg/client/batch.go
index 6608de2..6cce294 100644
--- a/pkg/client/batch.go
+++ b/pkg/client/batch.go
@@ -147,7 +147,8 @@ func (c *Client) BatchSet(ctx context.Context, items []BatchSetItem) ([]BatchPut
 			ValueEncoding: "base64",
 		}
 		if it.TTL > 0 {
-			wire.TTLMs = it.TTL.Milliseconds()
+			// Never zero, which would mean no expiry.
+			wire.TTLMs = max(it.TTL.Milliseconds(), 1)
 		}
 
 		body.Items = append(body.Items, wire)
-- 
2.43.0


From 876e30705d0633f1ae7bad440f6958954b0e7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 08/78] fix: layer client auth options on the caller's
 Transport and let the last one win

WithBearerAuth and WithBasicAuth discarded the Transport of an earlier
WithHTTPClient (losing its client certificate and CAs), and a static
credential applied before WithOIDCClientCredentials overrode its token.
---
 pkg/client/client.go  | 77 ++++++++++++++++++++++++++++---------------
 pkg/client/options.go |  6 +++-
 2 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 4b34874..ded0e9f 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -321,7 +321,7 @@ func (c *Client) Can(ctx context.Context, capability string) (bool, error) {
 
 // bearerAuthTransport returns a RoundTripper that injects the
 // given bearer token on every request.
-func bearerAuthTransport(token string) http.RoundTripper {
+func bearerAuthTransport(token string) *authTransport {
 	return bearerLikeAuthTransport("Bearer " + token)
 }
 
@@ -329,32 +329,63 @@ func bearerAuthTransport(token string) http.RoundTripper {
 // given Authorization header value on every request. Used by both
 // bearer and Basic auth — both share the "set one header on every
 // request" shape.
-func bearerLikeAuthTransport(headerValue string) http.RoundTripper {
-	return roundTripperFunc(func(req *http.Request) (*http.Response, error) {
-		// Clone before mutating so the caller's copy stays clean.
-		cloned := req.Clone(req.Context())
-		cloned.Header.Set("Authorization", headerValue)
+func bearerLikeAuthTransport(headerValue string) *authTransport {
+	return &authTransport{header: headerValue}
+}
 
-		base := http.DefaultTransport
+// authTransport sets the Authorization header and delegates to base
+// (http.DefaultTransport when nil).
+type authTransport struct {
+	header string
+	base   http.RoundTripper
+}
 
-		resp, err := base.RoundTrip(cloned)
-		if err != nil {
-			return nil, fmt.Errorf("client transport: %w", err)
-		}
+// RoundTrip implements http.RoundTripper.
+func (t *authTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	// Clone before mutating so the caller's copy stays clean.
+	cloned := req.Clone(req.Context())
+	cloned.Header.Set("Authorization", t.header)
 
-		return resp, nil
-	})
+	base := t.base
+	if base == nil {
+		base = http.DefaultTransport
+	}
+
+	resp, err := base.RoundTrip(cloned)
+	if err != nil {
+		return nil, fmt.Errorf("client transport: %w", err)
+	}
+
+	return resp, nil
+}
+
+// withoutAuth strips the transports of auth options applied earlier:
+// the last auth option wins, on top of the caller's own Transport.
+func withoutAuth(rt http.RoundTripper) http.RoundTripper {
+	for {
+		switch t := rt.(type) {
+		case *authTransport:
+			rt = t.base
+		case *oauth2.Transport:
+			rt = t.Base
+		default:
+			return rt
+		}
+	}
 }
 
-// httpClientWithAuth wraps the existing http.Client with an
-// authentication transport. The original client's Timeout is
-// preserved.
-func httpClientWithAuth(base *http.Client, authTransport http.RoundTripper) *http.Client {
-	out := &http.Client{Transport: authTransport}
+// httpClientWithAuth wraps the existing http.Client's Transport with
+// an authentication transport. The original client's other settings
+// (Timeout, CheckRedirect, Jar) are preserved.
+func httpClientWithAuth(base *http.Client, auth *authTransport) *http.Client {
+	out := &http.Client{}
 	if base != nil {
-		out.Timeout = base.Timeout
+		*out = *base
 	}
 
+	auth.base = withoutAuth(out.Transport)
+	out.Transport = auth
+
 	return out
 }
 
@@ -370,14 +401,6 @@ func contextWithBaseHTTP(base *http.Client) context.Context {
 	return context.WithValue(context.Background(), oauth2.HTTPClient, base)
 }
 
-// roundTripperFunc is the function-as-RoundTripper adapter the
-// stdlib should ship but doesn't.
-type roundTripperFunc func(*http.Request) (*http.Response, error)
-
-func (f roundTripperFunc) RoundTrip(req *http.Request) (*http.Response, error) {
-	return f(req)
-}
-
 // decodeEnvelopeValue returns the raw bytes from an itemEnvelope.
 // The server always emits base64 in the envelope, but we tolerate
 // the (currently-unused) raw encoding for forward-compatibility.
diff --git a/pkg/client/options.go b/pkg/client/options.go
index 53a6d4f..bac2f51 100644
--- a/pkg/client/options.go
+++ b/pkg/client/options.go
@@ -107,7 +107,11 @@ func WithOIDCClientCredentials(cfg clientcredentials.Config) Option {
 			base = http.DefaultClient
 		}
 
-		baseCtx := contextWithBaseHTTP(base)
+		// A static credential applied earlier must not replace the token.
+		plain := *base
+
+		plain.Transport = withoutAuth(base.Transport)
+		baseCtx := contextWithBaseHTTP(&plain)
 
 		// Wrap the underlying TokenSource so rotations log via the
 		// client's slog.Logger. The wrapper holds a pointer to the
-- 
2.43.0


From 251513fd497809ae9695bc9747a3d73622dd1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 09/78] fix: keep secrets out of auth config parse errors

---
 pkg/httpauth/loader.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/httpauth/loader.go b/pkg/httpauth/loader.go
index 11c6e16..637a7e3 100644
--- a/pkg/httpauth/loader.go
+++ b/pkg/httpauth/loader.go
@@ -3,6 +3,7 @@ package httpauth
 import (
 	"fmt"
 	"os"
+	"regexp"
 
 	"github.com/hyp3rd/ewrap"
 	"gopkg.in/yaml.v3"
@@ -163,7 +164,7 @@ func loadFromFile(path string) (Policy, error) {
 
 	err = dec.Decode(&schema)
 	if err != nil {
-		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, err)
+		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, redactYAMLError(err))
 	}
 
 	policy, err := schemaToPolicy(schema)
@@ -179,6 +180,25 @@ func loadFromFile(path string) (Policy, error) {
 	return policy, nil
 }
 
+// yamlScalar matches the places where yaml.v3 quotes document content in
+// its errors: a value of the wrong type, and an alias (an unquoted value
+// starting with `*`) without an anchor. A list of bare token strings under
+// `tokens:` is the typical case.
+var yamlScalar = regexp.MustCompile("(?s)`.*` into|anchor '.*' ")
+
+// redactYAMLError drops document content from a YAML decoding error and
+// keeps what the operator needs to find the mistake (line, expected type,
+// field name).
+func redactYAMLError(err error) error {
+	return ewrap.New(yamlScalar.ReplaceAllStringFunc(err.Error(), func(m string) string {
+		if m[0] == '`' {
+			return "[redacted] into"
+		}
+
+		return "anchor [redacted] "
+	}))
+}
+
 // schemaToPolicy lifts the YAML wire shape into the public Policy
 // type. The two-step path (file → schema → Policy) keeps the YAML
 // parsing isolated from the runtime auth shape; users embedding
-- 
2.43.0


From a522ff58b8036fb128d38b62973bf9e8b3c90dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 10/78] fix: decode serialized data straight into the caller's
 value

---
 internal/libs/serializer/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/libs/serializer/json.go b/internal/libs/serializer/json.go
index c14aec8..4d8f6a7 100644
--- a/internal/libs/serializer/json.go
+++ b/internal/libs/serializer/json.go
@@ -29,7 +29,7 @@ func (*DefaultJSONSerializer) Marshal(v any) ([]byte, error) { // receiver omitt
 // @param data
 // @param v.
 func (*DefaultJSONSerializer) Unmarshal(data []byte, v any) error { // receiver omitted (unused)
-	err := json.Unmarshal(data, &v)
+	err := json.Unmarshal(data, v)
 	if err != nil {
 		return ewrap.Wrap(err, "failed to unmarshal json")
 	}
-- 
2.43.0


From c1e45b12019a41097db56c4fe2790a19766cb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:02 +0000
Subject: [PATCH 11/78] fix: honour TLS and dial timeout options of the redis
 stores

---
 pkg/backend/redis/store.go        | 9 ---------
 pkg/backend/rediscluster/store.go | 8 +-------
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/pkg/backend/redis/store.go b/pkg/backend/redis/store.go
index 5a43ff9..54907f3 100644
--- a/pkg/backend/redis/store.go
+++ b/pkg/backend/redis/store.go
@@ -1,8 +1,6 @@
 package redis
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -21,13 +19,6 @@ type Store struct {
 func New(opts ...Option) (*Store, error) {
 	// Setup redis client
 	opt := &redis.Options{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{
-				Timeout: constants.RedisDialTimeout,
-			}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		DB:           0,
 		MaxRetries:   constants.RedisClientMaxRetries,
 		DialTimeout:  constants.RedisDialTimeout,
diff --git a/pkg/backend/rediscluster/store.go b/pkg/backend/rediscluster/store.go
index be05d27..7802d21 100644
--- a/pkg/backend/rediscluster/store.go
+++ b/pkg/backend/rediscluster/store.go
@@ -1,8 +1,6 @@
 package rediscluster
 
 import (
-	"context"
-	"net"
 	"strings"
 
 	"github.com/hyp3rd/ewrap"
@@ -19,12 +17,8 @@ type Store struct {
 // New creates a redis cluster store instance with given options.
 func New(opts ...Option) (*Store, error) {
 	opt := &redis.ClusterOptions{
-		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
-			dialer := &net.Dialer{Timeout: constants.RedisDialTimeout}
-
-			return dialer.DialContext(ctx, network, addr)
-		},
 		MaxRetries:   constants.RedisClientMaxRetries,
+		DialTimeout:  constants.RedisDialTimeout,
 		ReadTimeout:  constants.RedisClientReadTimeout,
 		WriteTimeout: constants.RedisClientWriteTimeout,
 		PoolSize:     constants.RedisClientPoolSize,
-- 
2.43.0


From abbc0b922b41590eeea5067cd9698bf6f26c5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 12/78] fix: clock eviction always finds a victim in a
 non-empty cache

Evict and a Set at capacity gave up after one turn of the hand: Evict then
reported an empty cache and Set silently dropped the new key, so the cache
grew past its capacity.
---
 pkg/eviction/clock.go | 105 ++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 46 deletions(-)

diff --git a/pkg/eviction/clock.go b/pkg/eviction/clock.go
index f36a135..453b24d 100644
--- a/pkg/eviction/clock.go
+++ b/pkg/eviction/clock.go
@@ -1,6 +1,7 @@
 package eviction
 
 import (
+	"math"
 	"sync"
 
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -41,33 +42,18 @@ func (c *ClockAlgorithm) Evict() (string, bool) {
 		return "", false
 	}
 
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // empty slot, advance
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		if item.AccessCount > 0 { // give second chance
-			item.AccessCount--
-
-			c.hand = (c.hand + 1) % c.capacity
-
-			continue
-		}
-
-		// evict
-		evictedKey := item.Key
-		delete(c.keys, evictedKey)
-		c.itemPoolManager.Put(item)
+	item := c.findVictim()
+	if item == nil {
+		return "", false
+	}
 
-		c.items[c.hand] = nil
+	evictedKey := item.Key
+	delete(c.keys, evictedKey)
+	c.itemPoolManager.Put(item)
 
-		return evictedKey, true
-	}
+	c.items[c.hand] = nil
 
-	return "", false
+	return evictedKey, true
 }
 
 // Set sets the item with the given key and value in the cache.
@@ -164,37 +150,64 @@ func (c *ClockAlgorithm) tryInsertInFreeSlot(key string, value any) bool {
 }
 
 func (c *ClockAlgorithm) evictAndInsert(key string, value any) {
-	for range c.capacity {
-		item := c.items[c.hand]
-		if item == nil { // skip empty
-			c.advanceHand()
+	item := c.findVictim()
+	if item == nil {
+		return
+	}
 
-			continue
-		}
+	delete(c.keys, item.Key)
+	c.itemPoolManager.Put(item)
 
-		if item.AccessCount > 0 { // second chance
-			item.AccessCount--
+	c.items[c.hand] = nil
 
-			c.advanceHand()
+	newItem := c.itemPoolManager.Get()
 
-			continue
-		}
+	newItem.Key = key
+	newItem.Value = value
+	newItem.AccessCount = 1
+	c.items[c.hand] = newItem
+	c.keys[key] = c.hand
+	c.advanceHand()
+}
 
-		delete(c.keys, item.Key)
-		c.itemPoolManager.Put(item)
+// findVictim moves the hand to the next item that has used up its second
+// chances and returns it, or nil when there is no item at all.
+func (c *ClockAlgorithm) findVictim() *cache.Item {
+	if len(c.keys) == 0 {
+		return nil
+	}
 
-		c.items[c.hand] = nil
+	for {
+		for range c.capacity {
+			item := c.items[c.hand]
 
-		newItem := c.itemPoolManager.Get()
+			switch {
+			case item == nil: // empty slot, advance
+			case item.AccessCount > 0: // give second chance
+				item.AccessCount--
+			default:
+				return item
+			}
 
-		newItem.Key = key
-		newItem.Value = value
-		newItem.AccessCount = 1
-		c.items[c.hand] = newItem
-		c.keys[key] = c.hand
-		c.advanceHand()
+			c.advanceHand()
+		}
 
-		return
+		c.skipTurns()
+	}
+}
+
+// skipTurns takes at once the full turns of the hand in which no item would
+// run out of second chances, so that frequently used items do not cost a turn
+// per access.
+func (c *ClockAlgorithm) skipTurns() {
+	turns := uint32(math.MaxUint32)
+
+	for _, idx := range c.keys {
+		turns = min(turns, c.items[idx].AccessCount)
+	}
+
+	for _, idx := range c.keys {
+		c.items[idx].AccessCount -= turns
 	}
 }
 
-- 
2.43.0


From 9c35c0bc4ec739f5c2631596d63bd0ea8a43f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 13/78] fix: ARC evicts when full, only when full, and from
 whichever list has items

A miss with a full history trimmed the ghost list but evicted nothing, Evict
on a non-empty cache could answer false when T2 was empty, and a ghost hit
below capacity evicted a resident needlessly.
---
 pkg/eviction/arc.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 74f2f32..526e45a 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -277,7 +277,7 @@ func (a *ARC) Evict() (string, bool) {
 // replace evicts one resident from T1 or T2 and places its key into B1 or B2.
 // Returns the evicted resident key (if any).
 func (a *ARC) replace(x string) string {
-	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p))
+	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p) || a.t2.len == 0)
 	if fromT1 {
 		if tail := a.t1.removeTail(); tail != nil {
 			delete(a.t1Idx, tail.key)
@@ -338,7 +338,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = a.capacity
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b1.remove(ghost)
 		delete(a.b1Idx, key)
@@ -360,7 +362,9 @@ func (a *ARC) handleGhostHit(key string, value any) bool {
 			a.p = 0
 		}
 
-		a.replace(key)
+		if a.length >= a.capacity {
+			a.replace(key)
+		}
 
 		a.b2.remove(ghost)
 		delete(a.b2Idx, key)
@@ -408,6 +412,8 @@ func (a *ARC) trimForHistoryLimit() {
 			delete(a.b1Idx, tail.key)
 		}
 
+		a.replace("")
+
 		return
 	}
 
-- 
2.43.0


From 8b1b10793026a98bfd334a62fb55761d6d0bf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 14/78] fix: keep the memory allocation exact across
 overwrites, removals and rejected writes

---
 hypercache.go           |   9 +++
 hypercache_io.go        | 121 +++++++++++++++++++++++++++++++---------
 pkg/backend/inmemory.go |  20 +++++--
 pkg/cache/v2/cmap.go    |  19 ++++++-
 4 files changed, 136 insertions(+), 33 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index 2102240..f4397b6 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -67,6 +67,7 @@ type HyperCache[T backend.IBackendConstrain] struct {
 	maxEvictionCount           uint                // max items per eviction run
 	maxCacheSize               int64               // hard memory limit (MB), 0 = unlimited
 	memoryAllocation           atomic.Int64        // current memory usage (bytes)
+	sizeMu                     sync.Mutex          // serializes writers when maxCacheSize is set
 	once                       sync.Once           // ensures background loops start once
 	statsCollectorName         string              // configured stats collector name
 	// StatsCollector to collect cache statistics
@@ -88,6 +89,14 @@ type touchBackend interface {
 	Touch(ctx context.Context, key string) bool
 }
 
+// exchangeBackend is the optional interface of backends that hand back the item
+// a write replaced or a removal took, atomically with the write or removal, so
+// that the memory allocation is adjusted by exactly what changed.
+type exchangeBackend interface {
+	Replace(ctx context.Context, item *cache.Item) (*cache.Item, error)
+	Take(ctx context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool)
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
diff --git a/hypercache_io.go b/hypercache_io.go
index 320ec44..8c35069 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -31,21 +31,9 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-
-		return sentinel.ErrCacheFull
-	}
-
 	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return err
 	}
 
@@ -142,22 +130,9 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
-	// check if adding this item will exceed the maxCacheSize
-	hyperCache.memoryAllocation.Add(item.Size)
-
-	if hyperCache.maxCacheSize > 0 && hyperCache.memoryAllocation.Load() > hyperCache.maxCacheSize {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
-		return nil, sentinel.ErrCacheFull
-	}
-
 	// Insert the item into the cache
-	err = hyperCache.backend.Set(ctx, item)
+	err = hyperCache.store(ctx, item)
 	if err != nil {
-		hyperCache.memoryAllocation.Add(-item.Size)
-		hyperCache.itemPoolManager.Put(item)
-
 		return nil, err
 	}
 
@@ -262,8 +237,86 @@ func (hyperCache *HyperCache[T]) setItemSize(item *cache.Item) error {
 	return item.SetSize()
 }
 
+// store inserts the item into the backend and accounts for its size, unless that
+// would exceed maxCacheSize. The item is returned to the pool when it is not stored.
+func (hyperCache *HyperCache[T]) store(ctx context.Context, item *cache.Item) error {
+	// the backend may recycle an item it rejects
+	size := item.Size
+
+	exchanger, exact := hyperCache.backend.(exchangeBackend)
+
+	var replaced int64
+
+	if hyperCache.maxCacheSize > 0 {
+		hyperCache.sizeMu.Lock()
+		defer hyperCache.sizeMu.Unlock()
+
+		if exact {
+			if old, ok := hyperCache.backend.Get(ctx, item.Key); ok {
+				replaced = old.Size
+			}
+		}
+
+		if hyperCache.memoryAllocation.Load()-replaced+size > hyperCache.maxCacheSize {
+			hyperCache.itemPoolManager.Put(item)
+
+			return sentinel.ErrCacheFull
+		}
+	}
+
+	hyperCache.memoryAllocation.Add(size)
+
+	var (
+		old *cache.Item
+		err error
+	)
+
+	if exact {
+		old, err = exchanger.Replace(ctx, item)
+	} else {
+		err = hyperCache.backend.Set(ctx, item)
+	}
+
+	if err != nil {
+		hyperCache.memoryAllocation.Add(-size)
+		hyperCache.itemPoolManager.Put(item)
+
+		return err
+	}
+
+	if old != nil {
+		hyperCache.memoryAllocation.Add(-old.Size)
+	}
+
+	return nil
+}
+
+// take removes the item with the given key if cond (nil: always) accepts it, and
+// reports whether it did.
+func (hyperCache *HyperCache[T]) take(ctx context.Context, exchanger exchangeBackend, key string, cond func(*cache.Item) bool) bool {
+	item, ok := exchanger.Take(ctx, key, cond)
+	if ok {
+		hyperCache.memoryAllocation.Add(-item.Size)
+		hyperCache.evictionAlgorithm.Delete(key)
+	}
+
+	return ok
+}
+
 // Remove removes items with the given key from the cache. If an item is not found, it does nothing.
 func (hyperCache *HyperCache[T]) Remove(ctx context.Context, keys ...string) error {
+	if exchanger, ok := hyperCache.backend.(exchangeBackend); ok {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
+		}
+
+		for _, key := range keys {
+			hyperCache.take(ctx, exchanger, key, nil)
+		}
+
+		return nil
+	}
+
 	// Remove the item from the eviction algorithm
 	// and update the memory allocation
 	for _, key := range keys {
@@ -296,6 +349,20 @@ func (hyperCache *HyperCache[T]) Clear(ctx context.Context) error {
 		return err
 	}
 
+	// remove item by item where that keeps the memory allocation exact
+	// whatever is written meanwhile
+	if exchanger, ok := hyperCache.backend.(exchangeBackend); ok {
+		if ctx.Err() != nil {
+			return sentinel.ErrTimeoutOrCanceled
+		}
+
+		for _, item := range items {
+			hyperCache.take(ctx, exchanger, item.Key, nil)
+		}
+
+		return nil
+	}
+
 	// clear the cacheBackend
 	err = hyperCache.backend.Clear(ctx)
 	if err != nil {
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index ac448bf..c4bcdfe 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -70,18 +70,30 @@ func (cacheBackend *InMemory) Touch(_ context.Context, key string) bool {
 }
 
 // Set adds a Item to the cache.
-func (cacheBackend *InMemory) Set(_ context.Context, item *cache.Item) error {
+func (cacheBackend *InMemory) Set(ctx context.Context, item *cache.Item) error {
+	_, err := cacheBackend.Replace(ctx, item)
+
+	return err
+}
+
+// Replace adds a Item to the cache and returns the item it replaced, or nil
+// when the key was absent.
+func (cacheBackend *InMemory) Replace(_ context.Context, item *cache.Item) (*cache.Item, error) {
 	// Check for invalid key, value, or duration
 	err := item.Valid()
 	if err != nil {
 		cacheBackend.itemPoolManager.Put(item)
 
-		return err
+		return nil, err
 	}
 
-	cacheBackend.items.Set(item.Key, item)
+	return cacheBackend.items.Swap(item.Key, item), nil
+}
 
-	return nil
+// Take removes the item with the given key if cond (nil: always) accepts it,
+// and returns it.
+func (cacheBackend *InMemory) Take(_ context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool) {
+	return cacheBackend.items.PopIf(key, cond)
 }
 
 // List returns a list of all items in the cache filtered and ordered by the given options.
diff --git a/pkg/cache/v2/cmap.go b/pkg/cache/v2/cmap.go
index e7d96a4..41030e1 100644
--- a/pkg/cache/v2/cmap.go
+++ b/pkg/cache/v2/cmap.go
@@ -89,15 +89,24 @@ func getShardIndex(key string) uint32 {
 
 // Set sets the given value under the specified key.
 func (cm *ConcurrentMap) Set(key string, value *Item) {
+	cm.Swap(key, value)
+}
+
+// Swap sets the given value under the specified key and returns the item it
+// replaced, or nil when the key was absent.
+func (cm *ConcurrentMap) Swap(key string, value *Item) *Item {
 	shard := cm.GetShard(key)
 	shard.Lock()
 
-	if _, existed := shard.items[key]; !existed {
+	previous, existed := shard.items[key]
+	if !existed {
 		shard.count.Add(1)
 	}
 
 	shard.items[key] = value
 	shard.Unlock()
+
+	return previous
 }
 
 // Get retrieves an element from map under given key.
@@ -165,11 +174,17 @@ func (cm *ConcurrentMap) Has(key string) bool {
 
 // Pop removes an element from the map and returns it.
 func (cm *ConcurrentMap) Pop(key string) (*Item, bool) {
+	return cm.PopIf(key, nil)
+}
+
+// PopIf removes an element from the map and returns it, provided cond accepts
+// it. A nil cond accepts every element. cond runs under the shard lock.
+func (cm *ConcurrentMap) PopIf(key string, cond func(*Item) bool) (*Item, bool) {
 	shard := cm.GetShard(key)
 	shard.Lock()
 
 	item, ok := shard.items[key]
-	if !ok {
+	if !ok || (cond != nil && !cond(item)) {
 		shard.Unlock()
 
 		return nil, false
-- 
2.43.0


From 6294b3af8c833ccb02b8f62d725d0ae21160c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 15/78] fix: make the backends' capacity safe to change while
 the cache is in use

---
 pkg/backend/dist_memory.go   | 8 ++++----
 pkg/backend/inmemory.go      | 9 +++++----
 pkg/backend/options.go       | 6 +++---
 pkg/backend/redis.go         | 9 +++++----
 pkg/backend/redis_cluster.go | 9 +++++----
 5 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0030471..14878b9 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -59,7 +59,7 @@ var errNoTransport = ewrap.New("no transport")
 type DistMemory struct {
 	shards     []*distShard
 	shardCount int
-	capacity   int // logical global capacity (0 = unlimited). Not strictly enforced yet.
+	capacity   atomic.Int64 // logical global capacity (0 = unlimited). Not strictly enforced yet.
 	localNode  *cluster.Node
 	membership *cluster.Membership
 	ring       *cluster.Ring
@@ -592,7 +592,7 @@ func (dm *DistMemory) SyncWith(ctx context.Context, nodeID string) error {
 
 // WithDistCapacity sets logical capacity (not strictly enforced yet).
 func WithDistCapacity(capacity int) DistMemoryOption {
-	return func(dm *DistMemory) { dm.capacity = capacity }
+	return func(dm *DistMemory) { dm.capacity.Store(int64(capacity)) }
 }
 
 // WithDistMembership injects an existing membership and (optionally) a local node for multi-node tests.
@@ -1038,12 +1038,12 @@ func distOptionsFromMinimal(mc struct {
 // helper methods relocated after exported methods for lint ordering.
 
 // Capacity returns logical capacity.
-func (dm *DistMemory) Capacity() int { return dm.capacity }
+func (dm *DistMemory) Capacity() int { return int(dm.capacity.Load()) }
 
 // SetCapacity sets logical capacity.
 func (dm *DistMemory) SetCapacity(capacity int) {
 	if capacity >= 0 {
-		dm.capacity = capacity
+		dm.capacity.Store(int64(capacity))
 	}
 }
 
diff --git a/pkg/backend/inmemory.go b/pkg/backend/inmemory.go
index c4bcdfe..4f9765a 100644
--- a/pkg/backend/inmemory.go
+++ b/pkg/backend/inmemory.go
@@ -2,6 +2,7 @@ package backend
 
 import (
 	"context"
+	"sync/atomic"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
@@ -14,7 +15,7 @@ import (
 type InMemory struct {
 	items           cache.ConcurrentMap    // map to store the items in the cache
 	itemPoolManager *cache.ItemPoolManager // item pool manager to manage the item pool
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 }
 
 // NewInMemory creates a new in-memory cache with the given options.
@@ -27,7 +28,7 @@ func NewInMemory(opts ...Option[InMemory]) (IBackend[InMemory], error) {
 	ApplyOptions(backendInstance, opts...)
 
 	// Check if the `capacity` is valid
-	if backendInstance.capacity < 0 {
+	if backendInstance.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -40,12 +41,12 @@ func (cacheBackend *InMemory) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cacheBackend.
 func (cacheBackend *InMemory) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of items in the cache.
diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 1c36e25..770a2d9 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -14,17 +14,17 @@ type iConfigurableBackend interface {
 
 // setCapacity sets the `Capacity` field of the `InMemory` backend.
 func (inm *InMemory) setBackendCapacity(capacity int) {
-	inm.capacity = capacity
+	inm.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `Redis` backend.
 func (rb *Redis) setBackendCapacity(capacity int) {
-	rb.capacity = capacity
+	rb.capacity.Store(int64(capacity))
 }
 
 // setCapacity sets the `Capacity` field of the `RedisCluster` backend.
 func (rc *RedisCluster) setBackendCapacity(capacity int) {
-	rc.capacity = capacity
+	rc.capacity.Store(int64(capacity))
 }
 
 // Option is a function type that can be used to configure the `HyperCache` struct.
diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 81dd9b5..47fce73 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 	"time"
 
 	"github.com/hyp3rd/ewrap"
@@ -22,7 +23,7 @@ const (
 // Redis is a cache backend that stores the items in a redis implementation.
 type Redis struct {
 	rdb             *redis.Client          // redis client to interact with the redis server
-	capacity        int                    // capacity of the cache, limits the number of items that can be stored in the cache
+	capacity        atomic.Int64           // capacity of the cache, limits the number of items that can be stored in the cache
 	itemPoolManager *cache.ItemPoolManager // itemPoolManager is used to manage the item pool for memory efficiency
 	keysSetName     string                 // keysSetName is the name of the set that holds the keys of the items in the cache
 	Serializer      serializer.ISerializer // Serializer is the serializer used to serialize the items before storing them in the cache
@@ -42,7 +43,7 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	}
 
 	// Check if the `capacity` is valid
-	if rb.capacity < 0 {
+	if rb.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -72,12 +73,12 @@ func (cacheBackend *Redis) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the maximum number of items that can be stored in the cache.
 func (cacheBackend *Redis) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of items in the cache.
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b720814..acda234 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -3,6 +3,7 @@ package backend
 import (
 	"context"
 	"errors"
+	"sync/atomic"
 	"time"
 
 	"github.com/hyp3rd/ewrap"
@@ -23,7 +24,7 @@ const (
 // It mirrors the single-node Redis backend semantics but uses go-redis ClusterClient.
 type RedisCluster struct {
 	rdb             *redis.ClusterClient // redis cluster client
-	capacity        int                  // capacity of the cache
+	capacity        atomic.Int64         // capacity of the cache
 	itemPoolManager *cache.ItemPoolManager
 	keysSetName     string
 	Serializer      serializer.ISerializer
@@ -39,7 +40,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 		return nil, sentinel.ErrNilClient
 	}
 
-	if rc.capacity < 0 {
+	if rc.capacity.Load() < 0 {
 		return nil, sentinel.ErrInvalidCapacity
 	}
 
@@ -65,12 +66,12 @@ func (cacheBackend *RedisCluster) SetCapacity(capacity int) {
 		return
 	}
 
-	cacheBackend.capacity = capacity
+	cacheBackend.capacity.Store(int64(capacity))
 }
 
 // Capacity returns the capacity of the cluster backend.
 func (cacheBackend *RedisCluster) Capacity() int {
-	return cacheBackend.capacity
+	return int(cacheBackend.capacity.Load())
 }
 
 // Count returns the number of keys stored.
-- 
2.43.0


From 2fa77467ccccbace4d574678a4eada293736dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 16/78] fix: evict down to capacity before tracking a new key,
 and never with an unlimited capacity

---
 hypercache_eviction.go | 58 +++++++++++++++++++++++++++++++++++++-----
 hypercache_io.go       | 22 ++++++++--------
 2 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 91dd8ce..09d504f 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -3,11 +3,13 @@ package hypercache
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"time"
 
 	"github.com/hyp3rd/sectools/pkg/converters"
 
 	"github.com/hyp3rd/hypercache/pkg/backend"
+	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 	"github.com/hyp3rd/hypercache/pkg/eviction"
 )
 
@@ -40,18 +42,21 @@ func initEvictionAlgorithm[T backend.IBackendConstrain](hc *HyperCache[T]) error
 		return err
 	}
 
+	// The algorithm has to track everything the cache may hold.
+	maxTracked := max(maxEvictionCount, hc.backend.Capacity())
+
 	algorithmName := hc.evictionAlgorithmName
 	if algorithmName == "" {
 		algorithmName = "lru"
 	}
 
 	if hc.evictionShardCount > 1 {
-		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, maxEvictionCount, hc.evictionShardCount)
+		hc.evictionAlgorithm, err = eviction.NewSharded(algorithmName, maxTracked, hc.evictionShardCount)
 
 		return err
 	}
 
-	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, maxEvictionCount)
+	hc.evictionAlgorithm, err = eviction.NewEvictionAlgorithm(algorithmName, maxTracked)
 
 	return err
 }
@@ -106,7 +111,7 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		var evictedCount uint
 
-		for hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
+		for hyperCache.overCapacity(ctx) {
 			if hyperCache.maxEvictionCount == evictedCount {
 				break
 			}
@@ -115,7 +120,7 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 			// outer lock needed. The Evict() -> Remove() window below is
 			// already non-atomic by design (other workers may insert items
 			// between the two calls); a wider lock would not change that.
-			key, ok := hyperCache.evictionAlgorithm.Evict()
+			key, ok := hyperCache.nextVictim(ctx, "")
 			if !ok {
 				// no more items to evict
 				break
@@ -175,10 +180,49 @@ func (hyperCache *HyperCache[T]) logEvictionTick(evicted uint, remaining int64,
 	)
 }
 
+// overCapacity reports whether the cache holds more items than its capacity; a capacity of 0 is unlimited.
+func (hyperCache *HyperCache[T]) overCapacity(ctx context.Context) bool {
+	capacity := hyperCache.backend.Capacity()
+
+	return capacity > 0 && hyperCache.backend.Count(ctx) > capacity
+}
+
+// evictOverflow evicts until the cache is within its capacity, if items are evicted proactively. The item under keep
+// was just written.
+func (hyperCache *HyperCache[T]) evictOverflow(ctx context.Context, keep string) {
+	for hyperCache.shouldEvict.Load() && hyperCache.overCapacity(ctx) {
+		if _, ok := hyperCache.evictItem(ctx, keep); !ok {
+			return
+		}
+	}
+}
+
+// nextVictim returns the key the eviction algorithm wants to evict. The algorithm is bounded, so it may have lost
+// track of items that are still in the cache; the least recently accessed item other than keep is then taken instead.
+func (hyperCache *HyperCache[T]) nextVictim(ctx context.Context, keep string) (string, bool) {
+	key, ok := hyperCache.evictionAlgorithm.Evict()
+	if ok {
+		return key, true
+	}
+
+	if _, local := hyperCache.backend.(exchangeBackend); !local {
+		return "", false
+	}
+
+	items, err := hyperCache.backend.List(ctx, backend.WithFilterFunc(func(item *cache.Item) bool { return item.Key != keep }))
+	if err != nil || len(items) == 0 {
+		return "", false
+	}
+
+	oldest := slices.MinFunc(items, func(a, b *cache.Item) int { return a.LastAccess.Compare(b.LastAccess) })
+
+	return oldest.Key, true
+}
+
 // evictItem is a helper function that removes an item from the cache and returns the key of the evicted item.
 // If no item can be evicted, it returns a false.
-func (hyperCache *HyperCache[T]) evictItem(ctx context.Context) (string, bool) {
-	key, ok := hyperCache.evictionAlgorithm.Evict()
+func (hyperCache *HyperCache[T]) evictItem(ctx context.Context, keep string) (string, bool) {
+	key, ok := hyperCache.nextVictim(ctx, keep)
 	if !ok {
 		// no more items to evict
 		return "", false
@@ -201,7 +245,7 @@ func (hyperCache *HyperCache[T]) SetCapacity(ctx context.Context, capacity int)
 	hyperCache.shouldEvict.Swap(hyperCache.evictionInterval == 0 && hyperCache.backend.Capacity() > 0)
 
 	// if the cache size is greater than the new capacity, evict items
-	if hyperCache.backend.Count(ctx) > hyperCache.Capacity() {
+	if hyperCache.overCapacity(ctx) {
 		hyperCache.evictionLoop(ctx)
 	}
 }
diff --git a/hypercache_io.go b/hypercache_io.go
index 8c35069..0e8626a 100644
--- a/hypercache_io.go
+++ b/hypercache_io.go
@@ -37,15 +37,16 @@ func (hyperCache *HyperCache[T]) Set(ctx context.Context, key string, value any,
 		return err
 	}
 
+	// If the cache is above capacity, evict when the eviction interval is zero.
+	// This comes before the new item is tracked: a full algorithm would make
+	// room by forgetting its own victim, which would then stay for good while
+	// another item is evicted in its place.
+	hyperCache.evictOverflow(ctx, key)
+
 	// Set the item in the eviction algorithm. The algorithm protects its own
 	// state internally; no outer lock needed.
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
-
 	return nil
 }
 
@@ -136,17 +137,18 @@ func (hyperCache *HyperCache[T]) GetOrSet(ctx context.Context, key string, value
 		return nil, err
 	}
 
+	// If the cache is above capacity, evict when the eviction interval is zero.
+	// This comes before the new item is tracked: a full algorithm would make
+	// room by forgetting its own victim, which would then stay for good while
+	// another item is evicted in its place.
+	hyperCache.evictOverflow(ctx, key)
+
 	// Set the item in the eviction algorithm synchronously. The previous bare
 	// goroutine had no panic recovery, no shutdown coordination with Stop(),
 	// and let the caller observe a key whose eviction tracking had not yet
 	// been recorded. The algorithm's own internal mutex provides safety.
 	hyperCache.evictionAlgorithm.Set(key, item.Value)
 
-	// If the cache is at capacity, evict an item when the eviction interval is zero
-	if hyperCache.shouldEvict.Load() && hyperCache.backend.Count(ctx) > hyperCache.backend.Capacity() {
-		hyperCache.evictItem(ctx)
-	}
-
 	return value, nil
 }
 
-- 
2.43.0


From c3989342e9d4dd527edc99fd31d155cb49b6e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:22 +0000
Subject: [PATCH 17/78] fix: do not lose expiration triggers that arrive while
 one is handled

---
 hypercache_expiration.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index bb2e342..76b53d1 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -46,19 +46,10 @@ func (hyperCache *HyperCache[T]) handleExpirationSelect(ctx context.Context, tic
 		// scheduled expiration
 		hyperCache.expirationLoop(ctx)
 	case <-hyperCache.expirationTriggerCh:
-		// manual/coalesced trigger
-		hyperCache.expirationLoop(ctx)
+		// manual/coalesced trigger. A trigger from here on may be about items this
+		// pass no longer sees, so it has to be queued again.
 		hyperCache.expirationSignalPending.Store(false)
-
-		// drain any queued triggers quickly
-		for draining := true; draining; {
-			select {
-			case <-hyperCache.expirationTriggerCh:
-				// keep draining
-			default:
-				draining = false
-			}
-		}
+		hyperCache.expirationLoop(ctx)
 
 	case <-hyperCache.evictCh:
 		// manual eviction trigger
-- 
2.43.0


From 8a02022b876f88dc159cb640fc3564ee87304297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 18/78] fix: do not remove an item that was accessed or
 replaced after it was found expired

---
 hypercache_expiration.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 76b53d1..1ea65bc 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/hyp3rd/hypercache/internal/constants"
+	"github.com/hyp3rd/hypercache/internal/sentinel"
 	"github.com/hyp3rd/hypercache/pkg/backend"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
@@ -132,15 +133,18 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		// iterate all expired items and remove them
 		for _, item := range items {
-			expiredCount++
-
-			err := hyperCache.Remove(ctx, item.Key)
+			removed, err := hyperCache.removeExpired(ctx, item.Key)
 			if err != nil {
 				return err
 			}
 
 			hyperCache.itemPoolManager.Put(item)
-			hyperCache.StatsCollector.Incr("item_expired_count", 1)
+
+			if removed {
+				expiredCount++
+
+				hyperCache.StatsCollector.Incr("item_expired_count", 1)
+			}
 		}
 
 		itemCount := int64(hyperCache.backend.Count(ctx))
@@ -169,5 +173,20 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 	})
 }
 
+// removeExpired removes the item with the given key and reports whether it did. The item may have been
+// accessed or replaced since it was listed; it then stays.
+func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	exchanger, ok := hyperCache.backend.(exchangeBackend)
+	if !ok {
+		return true, hyperCache.Remove(ctx, key)
+	}
+
+	if ctx.Err() != nil {
+		return false, sentinel.ErrTimeoutOrCanceled
+	}
+
+	return hyperCache.take(ctx, exchanger, key, (*cache.Item).Expired), nil
+}
+
 // TriggerExpiration exposes a manual expiration trigger (debounced/coalesced internally).
 func (hyperCache *HyperCache[T]) TriggerExpiration() { hyperCache.execTriggerExpiration() }
-- 
2.43.0


From a1a884dab59724f306df9576d568c7e602dba6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 19/78] fix: record the duration of background loops instead of
 the time they started

---
 hypercache_eviction.go   | 4 +++-
 hypercache_expiration.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypercache_eviction.go b/hypercache_eviction.go
index 09d504f..23447a5 100644
--- a/hypercache_eviction.go
+++ b/hypercache_eviction.go
@@ -107,7 +107,9 @@ func (hyperCache *HyperCache[T]) evictionLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("eviction_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var evictedCount uint
 
diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 1ea65bc..30b2141 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -113,7 +113,9 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 
 		start := time.Now()
 
-		defer hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Now().UnixNano())
+		defer func() {
+			hyperCache.StatsCollector.Timing("expiration_loop_duration", time.Since(start).Nanoseconds())
+		}()
 
 		var (
 			expiredCount int64
-- 
2.43.0


From a5a49d30c5065f9da4f4d284a593b3b4da6a7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 20/78] fix: make concurrent Stop calls safe

---
 hypercache.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hypercache.go b/hypercache.go
index f4397b6..0e6e9a7 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -205,11 +205,8 @@ func (hyperCache *HyperCache[T]) Stop(ctx context.Context) error {
 
 	if hyperCache.bgCancel != nil {
 		hyperCache.bgCancel()
-
-		hyperCache.bgCancel = nil
 	}
 
-	hyperCache.once = sync.Once{}
 	hyperCache.workerPool.Shutdown()
 
 	if hyperCache.mgmtHTTP != nil {
-- 
2.43.0


From 9d080c87dbf32a7fa7a8733b8f65bb09f4cb71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 21/78] fix: keep workers running when nobody reads the pool's
 errors

---
 pool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pool.go b/pool.go
index 9b225f6..c53f041 100644
--- a/pool.go
+++ b/pool.go
@@ -81,6 +81,7 @@ func (pool *WorkerPool) Shutdown() {
 }
 
 // Errors returns a channel that can be used to receive errors from the worker pool.
+// Errors are dropped while the channel's buffer is full.
 func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
@@ -131,7 +132,11 @@ func (pool *WorkerPool) worker() {
 
 			err := job()
 			if err != nil {
-				pool.errorChan <- err
+				// A pool whose errors nobody reads must not come to a standstill.
+				select {
+				case pool.errorChan <- err:
+				default:
+				}
 			}
 
 			pool.wg.Done()
-- 
2.43.0


From dca6b9a6f09ff22a35f8ddf5dc378748984976cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:34 +0000
Subject: [PATCH 22/78] fix: make Resize of a worker pool safe with other
 Resize calls and with Shutdown

---
 pool.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pool.go b/pool.go
index c53f041..4e66002 100644
--- a/pool.go
+++ b/pool.go
@@ -20,10 +20,15 @@ type WorkerPool struct {
 	shutdownMu sync.RWMutex
 	closed     bool
 
+	// resizeMu protects workers and serializes Resize with Resize and with the
+	// closing of quit.
+	resizeMu sync.Mutex
+
 	workers   int
 	jobs      chan JobFunc
 	wg        sync.WaitGroup
 	quit      chan struct{}
+	drained   chan struct{} // closed once the pool is shut down and all jobs are done
 	errorChan chan error
 }
 
@@ -34,6 +39,7 @@ func NewWorkerPool(workers int) *WorkerPool {
 		jobs:    make(chan JobFunc, workers),
 		// buffer quit to allow multiple resize signals without blocking immediately
 		quit:      make(chan struct{}, workers),
+		drained:   make(chan struct{}),
 		errorChan: make(chan error, workers),
 	}
 	pool.start()
@@ -74,6 +80,12 @@ func (pool *WorkerPool) Shutdown() {
 
 	// Wait for all enqueued jobs to complete
 	pool.wg.Wait()
+	// Let go of a Resize that waits for workers which are no more
+	close(pool.drained)
+
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
 	// Now signal any lingering workers to exit select loop
 	close(pool.quit)
 	// It's now safe to close the error channel (no more sends after wg completes)
@@ -86,12 +98,21 @@ func (pool *WorkerPool) Errors() <-chan error {
 	return pool.errorChan
 }
 
-// Resize resizes the worker pool.
+// Resize resizes the worker pool. After Shutdown it does nothing.
 func (pool *WorkerPool) Resize(newSize int) {
 	if newSize < 0 {
 		return
 	}
 
+	pool.resizeMu.Lock()
+	defer pool.resizeMu.Unlock()
+
+	select {
+	case <-pool.drained:
+		return
+	default:
+	}
+
 	diff := newSize - pool.workers
 	if diff == 0 {
 		return
@@ -108,7 +129,11 @@ func (pool *WorkerPool) Resize(newSize int) {
 		// Decrease the number of workers
 		// Send only the number of quit signals needed to remove workers
 		for range -diff {
-			pool.quit <- struct{}{}
+			select {
+			case pool.quit <- struct{}{}:
+			case <-pool.drained:
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From cf17f0998da189bee922a96537e83bba7ce30b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 23/78] fix: support sorting a listing by size

---
 pkg/backend/filters.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/backend/filters.go b/pkg/backend/filters.go
index 269a1a1..ce6261f 100644
--- a/pkg/backend/filters.go
+++ b/pkg/backend/filters.go
@@ -67,6 +67,14 @@ func (f sortByFilter) ApplyFilter(_ string, items []*cache.Item) ([]*cache.Item,
 			},
 		}
 
+	case constants.SortBySize.String():
+		sorter = &itemSorter{
+			items: items,
+			less: func(i, j *cache.Item) bool {
+				return i.Size < j.Size
+			},
+		}
+
 	case constants.SortByLastAccess.String():
 		sorter = &itemSorter{
 			items: items,
-- 
2.43.0


From a8702d60a26adc12543bec32a3e5f05b0b11fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 24/78] fix: guard the tombstone maps of a dist shard with a
 mutex

Concurrent removes, merkle syncs and the tombstone sweeper read and wrote
the plain map of a shard without synchronization.
---
 pkg/backend/dist_memory.go | 51 +++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 14878b9..41e8b8b 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -366,6 +366,7 @@ func (dm *DistMemory) LifecycleContext() context.Context { return dm.lifeCtx }
 type distShard struct {
 	items             cache.ConcurrentMap
 	tombs             map[string]tombstone        // per-key tombstones
+	tombsMu           sync.RWMutex                // guards tombs
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
@@ -374,6 +375,32 @@ type distShard struct {
 	removedAtMu       sync.Mutex                  // guards removedAt
 }
 
+// tombstoneOf returns the tombstone recorded for key, if any.
+func (sh *distShard) tombstoneOf(key string) (tombstone, bool) {
+	sh.tombsMu.RLock()
+	defer sh.tombsMu.RUnlock()
+
+	ts, ok := sh.tombs[key]
+
+	return ts, ok
+}
+
+// putTombstone records a tombstone for key.
+func (sh *distShard) putTombstone(key string, ts tombstone) {
+	sh.tombsMu.Lock()
+	defer sh.tombsMu.Unlock()
+
+	sh.tombs[key] = ts
+}
+
+// clearTombstone forgets the tombstone of key.
+func (sh *distShard) clearTombstone(key string) {
+	sh.tombsMu.Lock()
+	defer sh.tombsMu.Unlock()
+
+	delete(sh.tombs, key)
+}
+
 // DistMemoryOption configures DistMemory backend.
 type DistMemoryOption func(*DistMemory)
 
@@ -1194,7 +1221,7 @@ func (dm *DistMemory) DebugInject(it *cache.Item) {
 
 	sh := dm.shardFor(it.Key)
 	// test helper: injecting a concrete item implies intent to resurrect; clear any tombstone so normal version comparison applies
-	delete(sh.tombs, it.Key)
+	sh.clearTombstone(it.Key)
 	sh.items.Set(it.Key, it)
 }
 
@@ -1875,7 +1902,7 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	sh := dm.shardFor(key)
 
 	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombs[key]; hasTomb { // already have tombstone
+		if _, hasTomb := sh.tombstoneOf(key); hasTomb { // already have tombstone
 			return
 		}
 
@@ -1884,21 +1911,21 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 
 			nextVer := cur.Version + 1
 
-			sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+			sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
 			dm.metrics.tombstonesActive.Store(dm.countTombstones())
 		}
 
 		return
 	}
 
-	if tomb, hasTomb := sh.tombs[key]; hasTomb {
+	if tomb, hasTomb := sh.tombstoneOf(key); hasTomb {
 		// If tombstone version newer or equal, do not resurrect
 		if tomb.version >= it.Version {
 			return
 		}
 
 		// remote has newer version; clear tombstone (key resurrected intentionally)
-		delete(sh.tombs, key)
+		sh.clearTombstone(key)
 		dm.metrics.tombstonesActive.Store(dm.countTombstones())
 	}
 
@@ -1921,9 +1948,13 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 			entries = append(entries, merkleKV{k: k, v: it.Version})
 		}
 
+		shard.tombsMu.RLock()
+
 		for k, ts := range shard.tombs { // include tombstones
 			entries = append(entries, merkleKV{k: k, v: ts.version})
 		}
+
+		shard.tombsMu.RUnlock()
 	}
 
 	return entries
@@ -1974,6 +2005,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 			continue
 		}
 
+		sh.tombsMu.Lock()
+
 		for k, ts := range sh.tombs {
 			if now.Sub(ts.at) >= dm.tombstoneTTL {
 				delete(sh.tombs, k)
@@ -1981,6 +2014,8 @@ func (dm *DistMemory) compactTombstones() int64 {
 				purged++
 			}
 		}
+
+		sh.tombsMu.Unlock()
 	}
 
 	return purged
@@ -1995,7 +2030,11 @@ func (dm *DistMemory) countTombstones() int64 {
 			continue
 		}
 
+		sh.tombsMu.RLock()
+
 		total += int64(len(sh.tombs))
+
+		sh.tombsMu.RUnlock()
 	}
 
 	return total
@@ -4624,7 +4663,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 
 	sh.items.Remove(key)
 
-	sh.tombs[key] = tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()}
+	sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
 
 	transport := dm.loadTransport()
-- 
2.43.0


From da26492e862bd69d7665f46429e65b000f624018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 25/78] fix: the primary coordinates writes forwarded to it

A write entering the cluster at a node that is not the key's primary was
stored by the primary without version and origin, its replication was
neither acknowledged nor hinted, and the write consistency level was not
checked.
---
 pkg/backend/dist_http_server.go    |  5 ++-
 pkg/backend/dist_http_transport.go |  5 +++
 pkg/backend/dist_memory.go         | 61 +++++++++++++++++++++++-------
 pkg/backend/dist_transport.go      |  4 +-
 4 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 35005a9..9b337f1 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,10 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
-	dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	applyErr := dm.applyForwardedSet(s.ctx, it, req.Replicate)
+	if applyErr != nil {
+		return fctx.Status(fiber.StatusServiceUnavailable).JSON(httpSetResponse{Error: applyErr.Error()})
+	}
 
 	return fctx.JSON(httpSetResponse{})
 }
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index bc1c1e8..307fb2a 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -203,6 +203,11 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 			return ewrap.Wrap(rerr, "read error body")
 		}
 
+		var failed httpSetResponse
+		if json.Unmarshal(errBody, &failed) == nil && failed.Error == sentinel.ErrQuorumFailed.Error() {
+			return sentinel.ErrQuorumFailed
+		}
+
 		return ewrap.Newf("forward set status %d body %s", resp.StatusCode, string(errBody))
 	}
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 41e8b8b..4e8b0b8 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3705,11 +3705,21 @@ func (dm *DistMemory) handleForwardPrimary(ctx context.Context, owners []cluster
 
 	dm.metrics.forwardSet.Add(1)
 
-	errFwd := transport.ForwardSet(ctx, string(owners[0]), item, true)
+	// The primary assigns version and origin.
+	unversioned := *item
+
+	unversioned.Version = 0
+	unversioned.Origin = ""
+
+	errFwd := transport.ForwardSet(ctx, string(owners[0]), &unversioned, true)
 	if errFwd == nil {
 		return false, nil
 	}
 
+	if errors.Is(errFwd, sentinel.ErrQuorumFailed) { // the primary coordinated the write and said so
+		return false, errFwd
+	}
+
 	// Primary unreachable for any reason — try to promote to a replica
 	// owner. The local node must be in owners[1:] AND still recognize
 	// itself as an owner (defensive against a stale ring snapshot
@@ -3900,12 +3910,6 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		promoted = true
 	}
 
-	// primary path: assign version & timestamp
-	item.Version = dm.versionCounter.Add(1)
-	item.Origin = string(dm.localNode.ID)
-	item.LastUpdated = time.Now()
-	dm.applySet(ctx, item, false)
-
 	// When we promoted, the original primary is unreachable but still
 	// a listed owner. Pass the full owners list (not owners[1:]) so
 	// replicateTo's existing failure-path queues a hint for the dead
@@ -3918,19 +3922,34 @@ func (dm *DistMemory) setImpl(ctx context.Context, item *cache.Item, span trace.
 		replicas = owners
 	}
 
-	acks := 1 + dm.replicateTo(ctx, item, replicas)
-	dm.metrics.writeAcks.Add(int64(acks))
+	acks, err := dm.coordinateWrite(ctx, item, owners, replicas)
 
 	span.SetAttributes(attribute.Int("dist.acks", acks))
 
+	return err
+}
+
+// coordinateWrite is the primary's part of a write: it assigns version and
+// timestamp, applies the item locally, replicates it, and checks the
+// acknowledgments against the write consistency level. Returns the number
+// of acknowledgments.
+func (dm *DistMemory) coordinateWrite(ctx context.Context, item *cache.Item, owners, replicas []cluster.NodeID) (int, error) {
+	item.Version = dm.versionCounter.Add(1)
+	item.Origin = string(dm.localNode.ID)
+	item.LastUpdated = time.Now()
+	dm.applySet(ctx, item, false)
+
+	acks := 1 + dm.replicateTo(ctx, item, replicas)
+	dm.metrics.writeAcks.Add(int64(acks))
+
 	needed := dm.requiredAcks(len(owners), dm.writeConsistency)
 	if acks < needed {
 		dm.metrics.writeQuorumFailures.Add(1)
 
-		return sentinel.ErrQuorumFailed
+		return acks, sentinel.ErrQuorumFailed
 	}
 
-	return nil
+	return acks, nil
 }
 
 // removeImpl is the business logic for Remove. Mirrors setImpl's
@@ -4517,14 +4536,30 @@ func (dm *DistMemory) setupOTelMetrics() {
 // re-fanned-back → stuck again" loop on a 5-node cluster, even
 // though MembershipVersion was stable (views were merely diverged,
 // not actively churning).
-func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) {
+//
+// A write forwarded by a node that is not the key's primary carries no
+// version yet; this node then coordinates it like a local write. Any
+// other arrival is a copy of a versioned item and applied as it is.
+func (dm *DistMemory) applyForwardedSet(ctx context.Context, item *cache.Item, replicate bool) error {
 	if dm.ring != nil && !dm.ownsKeyInternal(item.Key) {
 		dm.metrics.writeApplyRefused.Add(1)
 
-		return
+		return nil
+	}
+
+	if replicate && item.Version == 0 && item.Origin == "" {
+		owners := dm.lookupOwners(item.Key)
+		if len(owners) > 0 && owners[0] == dm.localNode.ID {
+			cloned := *item
+			_, err := dm.coordinateWrite(ctx, &cloned, owners, owners[1:])
+
+			return err
+		}
 	}
 
 	dm.applySet(ctx, item, replicate)
+
+	return nil
 }
 
 // applySet stores item locally and optionally replicates to other owners.
diff --git a/pkg/backend/dist_transport.go b/pkg/backend/dist_transport.go
index 535267c..e6e9df2 100644
--- a/pkg/backend/dist_transport.go
+++ b/pkg/backend/dist_transport.go
@@ -151,9 +151,7 @@ func (t *InProcessTransport) ForwardSet(ctx context.Context, nodeID string, item
 	// Forwarded arrival: ownership guard fires if the receiver's
 	// ring view says this node isn't an owner of the key. Stops
 	// divergent-view senders from planting stuck keys.
-	b.applyForwardedSet(ctx, item, replicate)
-
-	return nil
+	return b.applyForwardedSet(ctx, item, replicate)
 }
 
 // ForwardGet forwards a get operation to the specified backend node.
-- 
2.43.0


From 7502a9a3d39dcb5ebf93677f9322270ed5ba0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:59 +0000
Subject: [PATCH 26/78] fix: a dist node's version counter follows the versions
 it has seen

The counter is meant to be lamport-like, but it never advanced past remote
versions: a write accepted by a promoted replica got a version below that
of the value it replaced, and reads and repairs brought the old one back.
---
 pkg/backend/dist_memory.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 4e8b0b8..6e4d860 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4592,6 +4592,7 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 	cloned.Key = stableKey
 	sh.items.Set(stableKey, &cloned)
+	dm.observeVersion(cloned.Version)
 
 	if !replicate || dm.ring == nil {
 		return
@@ -4615,6 +4616,17 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	}
 }
 
+// observeVersion advances the version counter to at least v, so that the
+// next version assigned here is newer than any this node has seen.
+func (dm *DistMemory) observeVersion(v uint64) {
+	for {
+		cur := dm.versionCounter.Load()
+		if v <= cur || dm.versionCounter.CompareAndSwap(cur, v) {
+			return
+		}
+	}
+}
+
 // replicateSetWithSpan opens a child span around a single replica
 // ForwardSet so operators can attribute fan-out latency per peer, and
 // returns the underlying transport error for callers that count acks
@@ -4697,6 +4709,7 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	}
 
 	sh.items.Remove(key)
+	dm.observeVersion(nextVer)
 
 	sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
 	dm.metrics.tombstonesActive.Store(dm.countTombstones())
-- 
2.43.0


From 7c37cc831b7bab0c98fc6a5da68679f859978d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:02 +0000
Subject: [PATCH 27/78] fix: a dist node ignores arrivals older than what it
 holds

Callers of applySet rely on it to compare versions, but it stored whatever
came last: a late replica write, a replayed hint or a read-repair undid a
newer write, and resurrected removed keys. A removal also lowered the version
of an existing tombstone.
---
 pkg/backend/dist_http_server.go    |  7 ++-
 pkg/backend/dist_http_transport.go | 30 ++++++----
 pkg/backend/dist_http_types.go     | 15 +++--
 pkg/backend/dist_memory.go         | 91 +++++++++++++++++++++---------
 4 files changed, 96 insertions(+), 47 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 9b337f1..c951221 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -377,15 +377,18 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: unmarshalErr.Error()})
 	}
 
-	it := &cache.Item{ // LastUpdated set to now for replicated writes
+	it := &cache.Item{
 		Key:         req.Key,
 		Value:       req.Value,
 		Expiration:  time.Duration(req.Expiration) * time.Millisecond,
 		Version:     req.Version,
 		Origin:      req.Origin,
-		LastUpdated: time.Now(),
+		LastUpdated: req.LastUpdated,
 		LastAccess:  time.Now(),
 	}
+	if it.LastUpdated.IsZero() { // a peer that does not send it
+		it.LastUpdated = time.Now()
+	}
 
 	// Forwarded arrival from a peer: ownership guard fires if this
 	// node disagrees with the sender's view about K's owners.
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 307fb2a..4e65e99 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -155,12 +155,13 @@ const (
 // ForwardSet sends a Set/Replicate request to a remote node.
 func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item *cache.Item, replicate bool) error {
 	reqBody := httpSetRequest{
-		Key:        item.Key,
-		Value:      item.Value,
-		Expiration: item.Expiration.Milliseconds(),
-		Version:    item.Version,
-		Origin:     item.Origin,
-		Replicate:  replicate,
+		Key:         item.Key,
+		Value:       item.Value,
+		Expiration:  item.Expiration.Milliseconds(),
+		Version:     item.Version,
+		Origin:      item.Origin,
+		LastUpdated: item.LastUpdated,
+		Replicate:   replicate,
 	}
 
 	payloadBytes, err := json.Marshal(&reqBody)
@@ -275,11 +276,12 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 
 	if ib, ok := raw["item"]; ok && len(ib) > 0 {
 		var mirror struct {
-			Key        string          `json:"key"`
-			Value      json.RawMessage `json:"value"`
-			Expiration int64           `json:"expiration"`
-			Version    uint64          `json:"version"`
-			Origin     string          `json:"origin"`
+			Key         string          `json:"key"`
+			Value       json.RawMessage `json:"value"`
+			Expiration  int64           `json:"expiration"`
+			Version     uint64          `json:"version"`
+			Origin      string          `json:"origin"`
+			LastUpdated time.Time       `json:"LastUpdated"`
 		}
 
 		err := json.Unmarshal(ib, &mirror)
@@ -287,13 +289,17 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			return nil, false, ewrap.Wrap(err, "unmarshal mirror")
 		}
 
+		if mirror.LastUpdated.IsZero() {
+			mirror.LastUpdated = time.Now()
+		}
+
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
 			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
-			LastUpdated: time.Now(),
+			LastUpdated: mirror.LastUpdated,
 			LastAccess:  time.Now(),
 		}, true, nil
 	}
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 69968c3..0bb09a0 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,17 +1,20 @@
 package backend
 
 import (
+	"time"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
 // Shared HTTP request/response DTOs for distributed transport/server.
 type httpSetRequest struct { // shared with server & transport
-	Key        string `json:"key"`
-	Value      any    `json:"value"`
-	Expiration int64  `json:"expiration_ms"`
-	Version    uint64 `json:"version"`
-	Origin     string `json:"origin"`
-	Replicate  bool   `json:"replicate"`
+	Key         string    `json:"key"`
+	Value       any       `json:"value"`
+	Expiration  int64     `json:"expiration_ms"`
+	Version     uint64    `json:"version"`
+	Origin      string    `json:"origin"`
+	LastUpdated time.Time `json:"last_updated"` // when the version was assigned; zero from older peers
+	Replicate   bool      `json:"replicate"`
 }
 
 type httpSetResponse struct {
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 6e4d860..8426163 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -367,6 +367,7 @@ type distShard struct {
 	items             cache.ConcurrentMap
 	tombs             map[string]tombstone        // per-key tombstones
 	tombsMu           sync.RWMutex                // guards tombs
+	applyMu           sync.Mutex                  // makes comparing with the stored copy and replacing it one step
 	originalPrimary   map[string]cluster.NodeID   // recorded primary owner at first insert
 	originalPrimaryMu sync.RWMutex                // guards originalPrimary
 	originalOwners    map[string][]cluster.NodeID // recorded full owner set at first insert (for replica diff)
@@ -1906,13 +1907,8 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 			return
 		}
 
-		if cur, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			sh.items.Remove(key)
-
-			nextVer := cur.Version + 1
-
-			sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
-			dm.metrics.tombstonesActive.Store(dm.countTombstones())
+		if _, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
+			dm.bury(key)
 		}
 
 		return
@@ -4591,8 +4587,8 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	cloned := *item
 
 	cloned.Key = stableKey
-	sh.items.Set(stableKey, &cloned)
 	dm.observeVersion(cloned.Version)
+	dm.storeUnlessOlder(sh, &cloned)
 
 	if !replicate || dm.ring == nil {
 		return
@@ -4616,6 +4612,33 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 	}
 }
 
+// storeUnlessOlder stores item unless the shard holds a newer copy or a
+// newer tombstone of the key: a late replica write, hint or read-repair must
+// not undo what followed it. Versions are per-process counters which start
+// over when a node restarts, so item counts as older only if its timestamp
+// says so as well.
+func (dm *DistMemory) storeUnlessOlder(sh *distShard, item *cache.Item) {
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	cur, ok := sh.items.Get(item.Key)
+	if ok && isHigherVersion(cur, item) && !cur.LastUpdated.Before(item.LastUpdated) {
+		return
+	}
+
+	tomb, hasTomb := sh.tombstoneOf(item.Key)
+	if hasTomb {
+		if tomb.version >= item.Version && !tomb.at.Before(item.LastUpdated) {
+			return
+		}
+
+		sh.clearTombstone(item.Key)
+		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	}
+
+	sh.items.Set(item.Key, item)
+}
+
 // observeVersion advances the version counter to at least v, so that the
 // next version assigned here is newer than any this node has seen.
 func (dm *DistMemory) observeVersion(v uint64) {
@@ -4694,25 +4717,7 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
-	sh := dm.shardFor(key)
-	// capture version from existing item (if any) and increment for tombstone
-	var nextVer uint64
-
-	if it, ok := sh.items.Get(key); ok && it != nil {
-		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
-
-		nextVer = ci.Version + 1
-	}
-
-	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
-		nextVer = dm.tombVersionCounter.Add(1)
-	}
-
-	sh.items.Remove(key)
-	dm.observeVersion(nextVer)
-
-	sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
-	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	dm.bury(key)
 
 	transport := dm.loadTransport()
 	if !replicate || dm.ring == nil || transport == nil {
@@ -4735,6 +4740,38 @@ func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate boo
 	}
 }
 
+// bury deletes the local copy of key and leaves a tombstone newer than it.
+func (dm *DistMemory) bury(key string) {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	// capture version from existing item (if any) and increment for tombstone
+	var nextVer uint64
+
+	if it, ok := sh.items.Get(key); ok && it != nil {
+		ci := it // already *cache.Item (ConcurrentMap stores *cache.Item)
+
+		nextVer = ci.Version + 1
+	}
+
+	if nextVer == 0 { // no prior item seen; allocate monotonic tomb version
+		nextVer = dm.tombVersionCounter.Add(1)
+	}
+
+	// a second removal must not leave an older tombstone than the first
+	if tomb, hasTomb := sh.tombstoneOf(key); hasTomb {
+		nextVer = max(nextVer, tomb.version)
+	}
+
+	sh.items.Remove(key)
+	dm.observeVersion(nextVer)
+
+	sh.putTombstone(key, tombstone{version: nextVer, origin: string(dm.localNode.ID), at: time.Now()})
+	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+}
+
 // replicateRemoveWithSpan mirrors replicateSetWithSpan for tombstone
 // fan-out — keeps the trace tree symmetric so a Set followed by a
 // Remove has the same shape under tracing.
-- 
2.43.0


From 4c817fbfa51c2cd2b4eca9d01d493a3482e481b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:15 +0000
Subject: [PATCH 28/78] fix: a hint refused by the global caps leaves the queue
 and its accounting alone

The oldest hint of the node was taken off the books before the global caps
were checked, but stayed queued when they refused the new one.
---
 pkg/backend/dist_memory.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8426163..49f17cf 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2999,15 +2999,17 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 
 	queue := dm.hints[nodeID]
 
-	if dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode { // drop oldest
-		dropped := queue[0]
+	var freed hintedEntry // the oldest hint, if it has to make room
 
-		queue = queue[1:]
+	full := dm.hintMaxPerNode > 0 && len(queue) >= dm.hintMaxPerNode
+	total := dm.hintTotal
 
-		dm.adjustHintAccounting(-1, -dropped.size)
+	if full { // drop oldest
+		freed = queue[0]
+		total--
 	}
 
-	if (dm.hintMaxTotal > 0 && dm.hintTotal >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes+size > dm.hintMaxBytes) {
+	if (dm.hintMaxTotal > 0 && total >= dm.hintMaxTotal) || (dm.hintMaxBytes > 0 && dm.hintBytes-freed.size+size > dm.hintMaxBytes) {
 		dm.hintsMu.Unlock()
 		dm.metrics.hintedGlobalDropped.Add(1)
 
@@ -3018,6 +3020,12 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		return
 	}
 
+	if full {
+		queue = queue[1:]
+
+		dm.adjustHintAccounting(-1, -freed.size)
+	}
+
 	cloned := *item
 
 	now := time.Now()
-- 
2.43.0


From 37988618bcb8a64897f32084dff09d217f24054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 29/78] fix: replay hints without holding the hint lock

A peer that answers slowly blocked every write that had to queue a hint for
as long as the replay to it took.
---
 pkg/backend/dist_memory.go | 58 +++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 49f17cf..828c2f6 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3135,34 +3135,58 @@ func (dm *DistMemory) replayHints(ctx context.Context) { // reduced cognitive co
 
 	now := time.Now()
 
+	// Work on a snapshot: the sends below can take as long as the transport
+	// lets them, and writers must be able to queue hints meanwhile.
 	dm.hintsMu.Lock()
 
+	pending := make(map[string][]hintedEntry, len(dm.hints))
 	for nodeID, queue := range dm.hints {
-		out := queue[:0]
-
-		for _, hintEntry := range queue { // renamed for clarity
-			action := dm.processHint(ctx, nodeID, hintEntry, now)
-			//nolint:revive // identical-switch-branches rule disabled for clarity
-			switch action { // 0 keep, 1 remove
-			case 0:
-				out = append(out, hintEntry)
-			case 1:
-				dm.adjustHintAccounting(-1, -hintEntry.size)
-
-			default: // defensive future-proofing
-				out = append(out, hintEntry)
+		pending[nodeID] = slices.Clone(queue)
+	}
+
+	dm.hintsMu.Unlock()
+
+	for nodeID, queue := range pending {
+		done := make(map[*cache.Item]struct{}, len(queue))
+
+		for _, entry := range queue {
+			if dm.processHint(ctx, nodeID, entry, now) == 1 {
+				done[entry.item] = struct{}{}
 			}
 		}
 
-		if len(out) == 0 {
-			delete(dm.hints, nodeID)
+		dm.hintsMu.Lock()
+
+		dm.dropHints(nodeID, func(e hintedEntry) bool {
+			_, ok := done[e.item]
+
+			return ok
+		})
+
+		dm.hintsMu.Unlock()
+	}
+}
+
+// dropHints takes the hints for which drop holds off the queue of nodeID;
+// call with lock held.
+func (dm *DistMemory) dropHints(nodeID string, drop func(hintedEntry) bool) {
+	kept := make([]hintedEntry, 0, len(dm.hints[nodeID]))
+
+	for _, e := range dm.hints[nodeID] {
+		if drop(e) {
+			dm.adjustHintAccounting(-1, -e.size)
 		} else {
-			dm.hints[nodeID] = out
+			kept = append(kept, e)
 		}
 	}
 
+	if len(kept) == 0 {
+		delete(dm.hints, nodeID)
+	} else {
+		dm.hints[nodeID] = kept
+	}
+
 	dm.metrics.hintedBytes.Store(dm.hintBytes)
-	dm.hintsMu.Unlock()
 }
 
 // processHint returns 0=keep,1=remove.
-- 
2.43.0


From aa7c99c64d25331a42158e76136a73f3737bf4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 30/78] fix: removing a key cancels its queued hints

A hint queued while a replica was down was replayed after the key had been
removed and brought it back.
---
 pkg/backend/dist_memory.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 828c2f6..24ebff3 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -276,6 +276,8 @@ type hintedEntry struct {
 	expire   time.Time
 	size     int64      // approximate bytes for global cap accounting
 	source   hintSource // why this hint exists (replication fan-out vs rebalance migration)
+
+	cancelled *atomic.Bool // set when the key is removed
 }
 
 // hintSource records why a hint landed in the queue. Used to split
@@ -3036,6 +3038,8 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 		expire:   now.Add(dm.hintTTL),
 		size:     size,
 		source:   source,
+
+		cancelled: &atomic.Bool{},
 	})
 	dm.hints[nodeID] = queue
 	dm.adjustHintAccounting(1, size)
@@ -3095,6 +3099,27 @@ func (dm *DistMemory) adjustHintAccounting(countDelta int, bytesDelta int64) {
 	}
 }
 
+// cancelHints forgets the queued hints for key: once the key is removed,
+// replaying them would bring it back.
+func (dm *DistMemory) cancelHints(key string) {
+	dm.hintsMu.Lock()
+	defer dm.hintsMu.Unlock()
+
+	for nodeID := range dm.hints {
+		dm.dropHints(nodeID, func(e hintedEntry) bool {
+			if e.item.Key != key {
+				return false
+			}
+
+			if e.cancelled != nil {
+				e.cancelled.Store(true)
+			}
+
+			return true
+		})
+	}
+}
+
 func (dm *DistMemory) startHintReplayIfEnabled(ctx context.Context) {
 	if dm.hintReplayInt <= 0 || dm.hintTTL <= 0 {
 		return
@@ -3150,6 +3175,10 @@ func (dm *DistMemory) replayHints(ctx context.Context) { // reduced cognitive co
 		done := make(map[*cache.Item]struct{}, len(queue))
 
 		for _, entry := range queue {
+			if entry.cancelled != nil && entry.cancelled.Load() {
+				continue
+			}
+
 			if dm.processHint(ctx, nodeID, entry, now) == 1 {
 				done[entry.item] = struct{}{}
 			}
@@ -4750,6 +4779,7 @@ func (dm *DistMemory) recordOriginalPrimary(sh *distShard, key string) {
 // applyRemove deletes locally and optionally fan-outs removal to replicas.
 func (dm *DistMemory) applyRemove(ctx context.Context, key string, replicate bool) {
 	dm.bury(key)
+	dm.cancelHints(key)
 
 	transport := dm.loadTransport()
 	if !replicate || dm.ring == nil || transport == nil {
-- 
2.43.0


From c1e592149effd656ff63b75a15ba6048481b576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 31/78] fix: merkle sync deletes a local copy only for a remote
 tombstone

---
 docs/distributed.md                |  4 +-
 pkg/backend/dist_http_server.go    |  1 +
 pkg/backend/dist_http_transport.go | 14 +++--
 pkg/backend/dist_memory.go         | 83 ++++++++++++++++++++++--------
 4 files changed, 75 insertions(+), 27 deletions(-)

diff --git a/docs/distributed.md b/docs/distributed.md
index aa3a1a4..6fe9268 100644
--- a/docs/distributed.md
+++ b/docs/distributed.md
@@ -64,7 +64,7 @@ Configuration knobs:
 
 - Deletes allocate a tombstone version: previous item version +1; if absent, from per-process monotonic counter.
 - Tombstones prevent lower/equal remote versions from resurrecting data.
-- Merkle diff treats tombstone version as authoritative; remote absence vs local presence triggers inferred tombstone if newer local key missing remote counterpart.
+- Merkle diff treats tombstone version as authoritative: a local copy not newer than the remote tombstone is replaced by it. Remote absence without a tombstone deletes nothing (the remote may have missed the write or not own the key).
 - TTL + periodic sweep optionally compacts old tombstones; risk: if compaction happens before a previously partitioned replica resurfaces, a now-missing delete intent could allow stale resurrection (acceptable in experimental scope, documented for future durable design).
 
 ## Hinted Handoff
@@ -78,7 +78,7 @@ Configuration knobs:
 
 - Tree built over key+version (tombstones included) chunked by `WithDistMerkleChunkSize`.
 - Diff identifies differing leaf indexes; missing remote-only keys enumerated via in-process introspection or `/internal/keys` fallback (capped by `WithDistListKeysCap`).
-- Remote fetch & adoption updates local versions; missing local items with remote deletion inferred produce local tombstones.
+- Remote fetch & adoption updates local versions; local items deleted remotely become local tombstones.
 - Future: incremental scheduling (adaptive intervals based on recent diffs), deletion reconciliation matrix tests, rolling hash fast-path.
 
 ## Failure Detection & Membership
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index c951221..7a7c99b 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -558,6 +558,7 @@ func (s *distHTTPServer) registerMerkle(dm *DistMemory) {
 			"root":        tree.Root,
 			"leaf_hashes": tree.LeafHashes,
 			"chunk_size":  tree.ChunkSize,
+			"tombstones":  tree.Tombstones,
 		})
 	}))
 
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 4e65e99..fb6a6c8 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -461,9 +461,10 @@ func (t *DistHTTPTransport) FetchMerkle(ctx context.Context, nodeID string) (*Me
 	}
 
 	var body struct {
-		Root       []byte   `json:"root"`
-		LeafHashes [][]byte `json:"leaf_hashes"`
-		ChunkSize  int      `json:"chunk_size"`
+		Root       []byte            `json:"root"`
+		LeafHashes [][]byte          `json:"leaf_hashes"`
+		ChunkSize  int               `json:"chunk_size"`
+		Tombstones map[string]uint64 `json:"tombstones"`
 	}
 
 	err = readAndUnmarshal(respBody, &body)
@@ -471,7 +472,12 @@ func (t *DistHTTPTransport) FetchMerkle(ctx context.Context, nodeID string) (*Me
 		return nil, err
 	}
 
-	return &MerkleTree{Root: body.Root, LeafHashes: body.LeafHashes, ChunkSize: body.ChunkSize}, nil
+	return &MerkleTree{
+		Root:       body.Root,
+		LeafHashes: body.LeafHashes,
+		ChunkSize:  body.ChunkSize,
+		Tombstones: body.Tombstones,
+	}, nil
 }
 
 // ListKeys returns keys held on a remote node, optionally filtered
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 24ebff3..20c2651 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -521,6 +521,7 @@ type MerkleTree struct { // minimal representation
 	LeafHashes [][]byte // ordered leaf hashes
 	Root       []byte
 	ChunkSize  int
+	Tombstones map[string]uint64 // versions of the deletes the tree includes
 }
 
 // BuildMerkleTree constructs a Merkle tree snapshot of local data (best-effort, locks each shard briefly).
@@ -560,7 +561,12 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 
 	root := foldMerkle(leaves, hasher)
 
-	return &MerkleTree{LeafHashes: leaves, Root: append([]byte(nil), root...), ChunkSize: chunkSize}
+	return &MerkleTree{
+		LeafHashes: leaves,
+		Root:       append([]byte(nil), root...),
+		ChunkSize:  chunkSize,
+		Tombstones: dm.tombstoneVersions(),
+	}
 }
 
 // merkleKV is an internal pair used during tree construction & sync.
@@ -1815,6 +1821,7 @@ func (dm *DistMemory) applyMerkleDiffs(
 	entries []merkleKV,
 	diffs []int,
 	chunkSize int,
+	removed map[string]uint64,
 ) {
 	for _, ci := range diffs {
 		start := ci * chunkSize
@@ -1825,7 +1832,7 @@ func (dm *DistMemory) applyMerkleDiffs(
 		end := min(start+chunkSize, len(entries))
 
 		for _, e := range entries[start:end] {
-			dm.fetchAndAdopt(ctx, nodeID, e.k)
+			dm.fetchAndAdopt(ctx, nodeID, e.k, removed)
 		}
 	}
 }
@@ -1891,7 +1898,8 @@ func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) m
 }
 
 // fetchAndAdopt pulls a key from a remote node and adopts it if it's newer or absent locally.
-func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
+// removed holds the versions of the remote node's deletes.
+func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string, removed map[string]uint64) {
 	transport := dm.loadTransport()
 	if transport == nil {
 		return
@@ -1904,27 +1912,19 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 
 	sh := dm.shardFor(key)
 
-	if !ok { // remote missing key (could be delete) -> adopt tombstone locally if we still have it
-		if _, hasTomb := sh.tombstoneOf(key); hasTomb { // already have tombstone
-			return
-		}
-
-		if _, okLocal := sh.items.Get(key); okLocal { // create tombstone advancing version
-			dm.bury(key)
+	if !ok {
+		// Only a tombstone says that the key was deleted: a remote node may
+		// also lack it because it missed the write or does not own the key.
+		if version, isRemoved := removed[key]; isRemoved {
+			dm.adoptRemoval(key, version)
 		}
 
 		return
 	}
 
-	if tomb, hasTomb := sh.tombstoneOf(key); hasTomb {
-		// If tombstone version newer or equal, do not resurrect
-		if tomb.version >= it.Version {
-			return
-		}
-
-		// remote has newer version; clear tombstone (key resurrected intentionally)
-		sh.clearTombstone(key)
-		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	// If tombstone version newer or equal, do not resurrect
+	if tomb, hasTomb := sh.tombstoneOf(key); hasTomb && tomb.version >= it.Version {
+		return
 	}
 
 	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
@@ -1933,6 +1933,47 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string) {
 	}
 }
 
+// adoptRemoval replaces the local copy of key, unless it is newer, by a
+// tombstone of the given version.
+func (dm *DistMemory) adoptRemoval(key string, version uint64) {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	cur, ok := sh.items.Get(key)
+	if !ok || cur.Version > version {
+		return
+	}
+
+	sh.items.Remove(key)
+	dm.observeVersion(version)
+
+	sh.putTombstone(key, tombstone{version: version, origin: string(dm.localNode.ID), at: time.Now()})
+	dm.metrics.tombstonesActive.Store(dm.countTombstones())
+}
+
+// tombstoneVersions returns the versions of all tombstones by key.
+func (dm *DistMemory) tombstoneVersions() map[string]uint64 {
+	versions := make(map[string]uint64)
+
+	for _, shard := range dm.shards {
+		if shard == nil {
+			continue
+		}
+
+		shard.tombsMu.RLock()
+
+		for k, ts := range shard.tombs {
+			versions[k] = ts.version
+		}
+
+		shard.tombsMu.RUnlock()
+	}
+
+	return versions
+}
+
 // merkleEntries gathers key/version pairs from all shards.
 func (dm *DistMemory) merkleEntries() []merkleKV {
 	entries := make([]merkleKV, 0, merklePreallocEntries)
@@ -3354,10 +3395,10 @@ func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string) (bool,
 
 	missing := dm.resolveMissingKeys(ctx, nodeID, entries)
 
-	dm.applyMerkleDiffs(ctx, nodeID, entries, diffs, localTree.ChunkSize)
+	dm.applyMerkleDiffs(ctx, nodeID, entries, diffs, localTree.ChunkSize, remoteTree.Tombstones)
 
 	for k := range missing { // missing = remote-only keys
-		dm.fetchAndAdopt(ctx, nodeID, k)
+		dm.fetchAndAdopt(ctx, nodeID, k, remoteTree.Tombstones)
 	}
 
 	if len(diffs) == 0 && len(missing) == 0 {
-- 
2.43.0


From e6007d54daa3c8ae2f3d12e44f99b08630c950a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 32/78] fix: merkle sync finds missing keys over any transport

---
 docs/distributed.md        |  2 +-
 pkg/backend/dist_memory.go | 71 +++++++++-----------------------------
 2 files changed, 18 insertions(+), 55 deletions(-)

diff --git a/docs/distributed.md b/docs/distributed.md
index 6fe9268..c6874e2 100644
--- a/docs/distributed.md
+++ b/docs/distributed.md
@@ -77,7 +77,7 @@ Configuration knobs:
 ## Anti-Entropy (Merkle)
 
 - Tree built over key+version (tombstones included) chunked by `WithDistMerkleChunkSize`.
-- Diff identifies differing leaf indexes; missing remote-only keys enumerated via in-process introspection or `/internal/keys` fallback (capped by `WithDistListKeysCap`).
+- Diff identifies differing leaf indexes; missing remote-only keys enumerated via the transport's key listing (`/internal/keys` over HTTP; capped by `WithDistListKeysCap`).
 - Remote fetch & adoption updates local versions; local items deleted remotely become local tombstones.
 - Future: incremental scheduling (adaptive intervals based on recent diffs), deletion reconciliation matrix tests, rolling hash fast-path.
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 20c2651..a9c49bb 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1776,42 +1776,36 @@ func (dm *DistMemory) sortedMerkleEntries() []merkleKV {
 	return entries
 }
 
-// resolveMissingKeys enumerates remote-only keys using in-process or HTTP listing.
+// resolveMissingKeys lists the keys of a remote node which this node lacks.
 func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, entries []merkleKV) map[string]struct{} {
-	missing := dm.enumerateRemoteOnlyKeys(nodeID, entries)
-	if len(missing) != 0 {
-		return missing
-	}
+	missing := make(map[string]struct{})
 
-	httpT, ok := dm.loadTransport().(*DistHTTPTransport)
-	if !ok {
+	transport := dm.loadTransport()
+	if transport == nil {
 		return missing
 	}
 
-	keys, kerr := httpT.ListKeys(ctx, nodeID, "")
-	if kerr != nil || len(keys) == 0 {
+	keys, err := transport.ListKeys(ctx, nodeID, "")
+	if err != nil {
 		return missing
 	}
 
-	if dm.listKeysMax > 0 && len(keys) > dm.listKeysMax { // cap enforcement
-		keys = keys[:dm.listKeysMax]
+	known := make(map[string]struct{}, len(entries))
+	for _, e := range entries {
+		known[e.k] = struct{}{}
 	}
 
-	mset := make(map[string]struct{}, len(keys))
-	for _, k := range keys { // populate
-		mset[k] = struct{}{}
-	}
-
-	for _, e := range entries { // remove existing
-		delete(mset, e.k)
-	}
+	for _, k := range keys {
+		if dm.listKeysMax > 0 && len(missing) >= dm.listKeysMax { // cap enforcement
+			break
+		}
 
-	// track number of remote-only keys discovered via fallback
-	if len(mset) > 0 {
-		dm.metrics.merkleKeysPulled.Add(int64(len(mset)))
+		if _, ok := known[k]; !ok {
+			missing[k] = struct{}{}
+		}
 	}
 
-	return mset
+	return missing
 }
 
 // applyMerkleDiffs fetches and adopts keys for differing Merkle chunks.
@@ -1866,37 +1860,6 @@ func (dm *DistMemory) storeTransport(t DistTransport) {
 	dm.transport.Store(&distTransportSlot{t: t})
 }
 
-// enumerateRemoteOnlyKeys returns keys present only on the remote side (best-effort, in-process only).
-func (dm *DistMemory) enumerateRemoteOnlyKeys(nodeID string, local []merkleKV) map[string]struct{} {
-	missing := make(map[string]struct{})
-
-	ip, ok := dm.loadTransport().(*InProcessTransport)
-	if !ok {
-		return missing
-	}
-
-	remote, ok := ip.backends[nodeID]
-	if !ok {
-		return missing
-	}
-
-	for _, shard := range remote.shards {
-		if shard == nil {
-			continue
-		}
-
-		for k := range shard.items.All() {
-			missing[k] = struct{}{}
-		}
-	}
-
-	for _, e := range local { // remove any that we already have
-		delete(missing, e.k)
-	}
-
-	return missing
-}
-
 // fetchAndAdopt pulls a key from a remote node and adopts it if it's newer or absent locally.
 // removed holds the versions of the remote node's deletes.
 func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string, removed map[string]uint64) {
-- 
2.43.0


From 438c01ef055189dd2f598f847ced0e5858bba67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:58 +0000
Subject: [PATCH 33/78] fix: merkle auto-sync pulls only keys the node owns

---
 pkg/backend/dist_memory.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index a9c49bb..24f8ed9 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -621,7 +621,7 @@ func equalBytes(a, b []byte) bool { // tiny helper
 // Callers that need to distinguish clean from dirty cycles — currently only
 // the adaptive auto-sync backoff path — use syncWithStatus directly.
 func (dm *DistMemory) SyncWith(ctx context.Context, nodeID string) error {
-	_, err := dm.syncWithStatus(ctx, nodeID)
+	_, err := dm.syncWithStatus(ctx, nodeID, false)
 
 	return err
 }
@@ -1776,8 +1776,14 @@ func (dm *DistMemory) sortedMerkleEntries() []merkleKV {
 	return entries
 }
 
-// resolveMissingKeys lists the keys of a remote node which this node lacks.
-func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, entries []merkleKV) map[string]struct{} {
+// resolveMissingKeys lists the keys of a remote node which this node lacks;
+// with ownedOnly, only those it owns.
+func (dm *DistMemory) resolveMissingKeys(
+	ctx context.Context,
+	nodeID string,
+	entries []merkleKV,
+	ownedOnly bool,
+) map[string]struct{} {
 	missing := make(map[string]struct{})
 
 	transport := dm.loadTransport()
@@ -1800,7 +1806,7 @@ func (dm *DistMemory) resolveMissingKeys(ctx context.Context, nodeID string, ent
 			break
 		}
 
-		if _, ok := known[k]; !ok {
+		if _, ok := known[k]; !ok && (!ownedOnly || dm.ownsKeyInternal(k)) {
 			missing[k] = struct{}{}
 		}
 	}
@@ -3322,8 +3328,9 @@ func (dm *DistMemory) startAutoSyncIfEnabled(ctx context.Context) {
 // syncWithStatus mirrors SyncWith but additionally reports whether the cycle
 // found no divergence (clean=true means: zero differing chunks, zero
 // remote-only keys). Used by runAutoSyncTick to drive the adaptive backoff
-// without changing the public SyncWith signature.
-func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string) (bool, error) {
+// without changing the public SyncWith signature, and with ownedOnly, so that
+// auto-sync does not spread every key to every node.
+func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string, ownedOnly bool) (bool, error) {
 	transport := dm.loadTransport()
 	if transport == nil {
 		return false, errNoTransport
@@ -3356,7 +3363,7 @@ func (dm *DistMemory) syncWithStatus(ctx context.Context, nodeID string) (bool,
 	diffDur := time.Since(startDiff)
 	dm.metrics.merkleDiffNanos.Store(diffDur.Nanoseconds())
 
-	missing := dm.resolveMissingKeys(ctx, nodeID, entries)
+	missing := dm.resolveMissingKeys(ctx, nodeID, entries, ownedOnly)
 
 	dm.applyMerkleDiffs(ctx, nodeID, entries, diffs, localTree.ChunkSize, remoteTree.Tombstones)
 
@@ -3422,7 +3429,7 @@ func (dm *DistMemory) runAutoSyncTick(ctx context.Context) bool {
 			break
 		}
 
-		clean, err := dm.syncWithStatus(ctx, string(member.ID))
+		clean, err := dm.syncWithStatus(ctx, string(member.ID), true)
 		if err != nil { // capture last error only; treat as dirty so we don't back off through outages
 			lastErr = err
 			dirty = true
-- 
2.43.0


From 4fc12ab8b97519e9f3d3b96788a645b941d09d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:19 +0000
Subject: [PATCH 34/78] fix: merkle tree tells a delete from a write of the
 same version

---
 pkg/backend/dist_memory.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 24f8ed9..55eb388 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -554,6 +554,10 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 			encodeUint64BigEndian(buf, e.v)
 
 			_, _ = hasher.Write(buf)
+
+			if e.removed { // a delete differs from a write of the same version
+				_, _ = hasher.Write([]byte{1})
+			}
 		}
 
 		leaves = append(leaves, append([]byte(nil), hasher.Sum(nil)...))
@@ -571,8 +575,9 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 
 // merkleKV is an internal pair used during tree construction & sync.
 type merkleKV struct {
-	k string
-	v uint64
+	k       string
+	v       uint64
+	removed bool // a tombstone
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1959,7 +1964,7 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 		shard.tombsMu.RLock()
 
 		for k, ts := range shard.tombs { // include tombstones
-			entries = append(entries, merkleKV{k: k, v: ts.version})
+			entries = append(entries, merkleKV{k: k, v: ts.version, removed: true})
 		}
 
 		shard.tombsMu.RUnlock()
-- 
2.43.0


From ed365bb8554f281ed997763876c4bfa568d85581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:53 +0000
Subject: [PATCH 35/78] fix: merkle auto-sync does not sync a node with itself

---
 pkg/backend/dist_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 55eb388..1f73cf8 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3426,7 +3426,7 @@ func (dm *DistMemory) runAutoSyncTick(ctx context.Context) bool {
 	dirty := false
 
 	for _, member := range members {
-		if member == nil || string(member.ID) == dm.nodeID { // skip self
+		if member == nil || (dm.localNode != nil && member.ID == dm.localNode.ID) { // skip self
 			continue
 		}
 
-- 
2.43.0


From 8fef50eb94aafd5a865b85e2c47946fe8711da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:15 +0000
Subject: [PATCH 36/78] fix: rebalance sends every new replica its copy, also a
 throttled, failed or returning one

---
 pkg/backend/dist_memory.go | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 1f73cf8..0681ce0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2241,11 +2241,17 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		} // baseline created
 
 		newRepls := dm.computeNewReplicas(sh, it.Key, owners)
-		if len(newRepls) == 0 {
-			continue
+		if len(newRepls) > 0 {
+			var pending []cluster.NodeID
+
+			processed, pending = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
+
+			// what could not be sent is still new at the next tick
+			owners = slices.DeleteFunc(slices.Clone(owners), func(o cluster.NodeID) bool {
+				return slices.Contains(pending, o)
+			})
 		}
 
-		processed = dm.sendReplicaDiff(ctx, it, newRepls, processed, limit)
 		dm.setOwnerBaseline(sh, it.Key, owners)
 	}
 
@@ -2298,23 +2304,30 @@ func (*DistMemory) computeNewReplicas(sh *distShard, key string, owners []cluste
 	return out
 }
 
+// sendReplicaDiff forwards it to new replicas; pending are the ones that did
+// not get it, because the limit was reached or the forward failed.
 func (dm *DistMemory) sendReplicaDiff(
 	ctx context.Context,
 	it *cache.Item,
 	repls []cluster.NodeID,
 	processed, limit int,
-) int {
+) (int, []cluster.NodeID) {
 	transport := dm.loadTransport()
 	if transport == nil {
-		return processed
+		return processed, repls
 	}
 
-	for _, rid := range repls {
+	var pending []cluster.NodeID
+
+	for i, rid := range repls {
 		if rid == dm.localNode.ID {
 			continue
 		}
 
-		_ = transport.ForwardSet(ctx, string(rid), it, false)
+		err := transport.ForwardSet(ctx, string(rid), it, false)
+		if err != nil {
+			pending = append(pending, rid)
+		}
 
 		dm.metrics.replicaFanoutSet.Add(1)
 		dm.metrics.rebalancedKeys.Add(1)
@@ -2324,21 +2337,20 @@ func (dm *DistMemory) sendReplicaDiff(
 		if limit > 0 && processed >= limit {
 			dm.metrics.rebalanceReplicaDiffThrottle.Add(1)
 
-			return processed
+			return processed, append(pending, repls[i+1:]...)
 		}
 	}
 
-	return processed
+	return processed, pending
 }
 
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
 	sh.originalOwnersMu.Lock()
+	defer sh.originalOwnersMu.Unlock()
 
-	cp := make([]cluster.NodeID, len(owners))
-	copy(cp, owners)
-
-	sh.originalOwners[key] = cp
-	sh.originalOwnersMu.Unlock()
+	if !slices.Equal(sh.originalOwners[key], owners) {
+		sh.originalOwners[key] = slices.Clone(owners)
+	}
 }
 
 func (dm *DistMemory) maybeRecordRemoval(sh *distShard, key string) {
-- 
2.43.0


From 4ad17dc12c442dd3f6e503ff431f3b6fe98b3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:59 +0000
Subject: [PATCH 37/78] fix: rebalance compares owners with those of the last
 tick, not of the first insert

---
 pkg/backend/dist_memory.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0681ce0..ee7b2b9 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2233,9 +2233,15 @@ func (dm *DistMemory) replDiffShard(ctx context.Context, sh *distShard, processe
 		if len(owners) == 0 || owners[0] != dm.localNode.ID {
 			dm.maybeRecordRemoval(sh, it.Key)
 
+			if len(owners) > 0 { // who is new when this node becomes primary
+				dm.setOwnerBaseline(sh, it.Key, owners)
+			}
+
 			continue
 		}
 
+		dm.setPrimaryBaseline(sh, it.Key, owners[0])
+
 		if !dm.ensureOwnerBaseline(sh, it.Key, owners) {
 			continue
 		} // baseline created
@@ -2344,6 +2350,18 @@ func (dm *DistMemory) sendReplicaDiff(
 	return processed, pending
 }
 
+// setPrimaryBaseline records the primary of key that later ones are compared with.
+func (*DistMemory) setPrimaryBaseline(sh *distShard, key string, primary cluster.NodeID) {
+	if sh.originalPrimary == nil {
+		return
+	}
+
+	sh.originalPrimaryMu.Lock()
+	defer sh.originalPrimaryMu.Unlock()
+
+	sh.originalPrimary[key] = primary
+}
+
 func (*DistMemory) setOwnerBaseline(sh *distShard, key string, owners []cluster.NodeID) {
 	sh.originalOwnersMu.Lock()
 	defer sh.originalOwnersMu.Unlock()
@@ -2452,12 +2470,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	// Update originalPrimary so a future primary-shift comparison
 	// (the second branch of shouldRebalance) sees the new owner.
 	sh := dm.shardFor(item.Key)
-	if sh.originalPrimary != nil {
-		sh.originalPrimaryMu.Lock()
-
-		sh.originalPrimary[item.Key] = owners[0]
-		sh.originalPrimaryMu.Unlock()
-	}
+	dm.setPrimaryBaseline(sh, item.Key, owners[0])
 
 	// If this node is no longer an owner of the key (the migration
 	// was driven by the "lost ownership" branch of shouldRebalance,
-- 
2.43.0


From 914e8aee3de976850c9819d2763201367853c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 38/78] fix: rebalance keeps a copy that could not be handed
 over

---
 pkg/backend/dist_memory.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ee7b2b9..0592380 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2458,13 +2458,19 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	migrationErr := transport.ForwardSet(ctx, string(owners[0]), item, true)
 	if migrationErr != nil {
 		dm.logger.Info(
-			"rebalance migration forward failed; queued for hint replay",
+			"rebalance migration forward failed",
 			slog.String("key", item.Key),
 			slog.String("new_primary", string(owners[0])),
 			slog.Any("err", migrationErr),
 		)
 
-		dm.queueHint(string(owners[0]), item, hintSourceMigration)
+		// Without a hint, this copy may be the last one: keep it, and let
+		// the next tick try again.
+		if !dm.queueHint(string(owners[0]), item, hintSourceMigration) {
+			dm.forgetRemoval(item.Key)
+
+			return
+		}
 	}
 
 	// Update originalPrimary so a future primary-shift comparison
@@ -2499,6 +2505,18 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 	}
 }
 
+// forgetRemoval lets the grace period of key start over.
+func (dm *DistMemory) forgetRemoval(key string) {
+	sh := dm.shardFor(key)
+	if sh.removedAt == nil {
+		return
+	}
+
+	sh.removedAtMu.Lock()
+	delete(sh.removedAt, key)
+	sh.removedAtMu.Unlock()
+}
+
 // shedRemovedKeys deletes keys for which this node is no longer an owner after grace period.
 // Best-effort: we iterate shards, check removal timestamps, and remove local copy if grace elapsed.
 func (dm *DistMemory) shedRemovedKeys() {
@@ -3026,9 +3044,9 @@ func (dm *DistMemory) getWithConsistencyParallel(
 }
 
 // --- Hinted handoff implementation ---.
-func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) { // reduced complexity
+func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSource) bool { // reduced complexity
 	if dm.hintTTL <= 0 {
-		return
+		return false
 	}
 
 	size := dm.approxHintSize(item)
@@ -3059,7 +3077,7 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 			dm.metrics.migrationHintDropped.Add(1)
 		}
 
-		return
+		return false
 	}
 
 	if full {
@@ -3096,6 +3114,8 @@ func (dm *DistMemory) queueHint(nodeID string, item *cache.Item, source hintSour
 	if source == hintSourceMigration {
 		dm.metrics.migrationHintQueued.Add(1)
 	}
+
+	return true
 }
 
 // approxHintSize estimates the size of a hinted item for global caps.
-- 
2.43.0


From a60133e174fefec13ef7c8cfe57529410c952115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 39/78] fix: rebalance does not drop a newer copy that arrived
 during the transfer

---
 pkg/backend/dist_memory.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0592380..ee1daed 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -396,6 +396,18 @@ func (sh *distShard) putTombstone(key string, ts tombstone) {
 	sh.tombs[key] = ts
 }
 
+// release removes the copy which was handed over, unless a newer one has
+// arrived meanwhile.
+func (sh *distShard) release(item *cache.Item) {
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	cur, ok := sh.items.Get(item.Key)
+	if ok && !isHigherVersion(cur, item) {
+		sh.items.Remove(item.Key)
+	}
+}
+
 // clearTombstone forgets the tombstone of key.
 func (sh *distShard) clearTombstone(key string) {
 	sh.tombsMu.Lock()
@@ -2500,7 +2512,7 @@ func (dm *DistMemory) migrateIfNeeded(ctx context.Context, item *cache.Item) {
 
 			sh.removedAtMu.Unlock()
 		} else {
-			sh.items.Remove(item.Key)
+			sh.release(item)
 		}
 	}
 }
-- 
2.43.0


From ec1d9c71cebb40a832260976554425a79f1cb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:37 +0000
Subject: [PATCH 40/78] fix: an older copy that a node refuses is not passed on
 to replicas

---
 pkg/backend/dist_memory.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ee1daed..8924397 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4722,9 +4722,9 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 
 	cloned.Key = stableKey
 	dm.observeVersion(cloned.Version)
-	dm.storeUnlessOlder(sh, &cloned)
 
-	if !replicate || dm.ring == nil {
+	// what is older here must not reach replicas that know less
+	if !dm.storeUnlessOlder(sh, &cloned) || !replicate || dm.ring == nil {
 		return
 	}
 
@@ -4750,20 +4750,20 @@ func (dm *DistMemory) applySet(ctx context.Context, item *cache.Item, replicate
 // newer tombstone of the key: a late replica write, hint or read-repair must
 // not undo what followed it. Versions are per-process counters which start
 // over when a node restarts, so item counts as older only if its timestamp
-// says so as well.
-func (dm *DistMemory) storeUnlessOlder(sh *distShard, item *cache.Item) {
+// says so as well. It reports whether item was stored.
+func (dm *DistMemory) storeUnlessOlder(sh *distShard, item *cache.Item) bool {
 	sh.applyMu.Lock()
 	defer sh.applyMu.Unlock()
 
 	cur, ok := sh.items.Get(item.Key)
 	if ok && isHigherVersion(cur, item) && !cur.LastUpdated.Before(item.LastUpdated) {
-		return
+		return false
 	}
 
 	tomb, hasTomb := sh.tombstoneOf(item.Key)
 	if hasTomb {
 		if tomb.version >= item.Version && !tomb.at.Before(item.LastUpdated) {
-			return
+			return false
 		}
 
 		sh.clearTombstone(item.Key)
@@ -4771,6 +4771,8 @@ func (dm *DistMemory) storeUnlessOlder(sh *distShard, item *cache.Item) {
 	}
 
 	sh.items.Set(item.Key, item)
+
+	return true
 }
 
 // observeVersion advances the version counter to at least v, so that the
-- 
2.43.0


From 515d03c0871b5275e714c29d7739f0d20c7d507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 41/78] fix: gossip compares and adopts a record in one step

---
 internal/cluster/membership.go | 22 ++++++++++++++++++++++
 pkg/backend/dist_memory.go     | 34 ++++++----------------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 6017fa5..1b924a2 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -58,7 +58,29 @@ func (m *Membership) OnStateChange(fn StateChangeObserver) {
 // Upsert adds or updates a node and rebuilds ring.
 func (m *Membership) Upsert(n *Node) {
 	m.mu.Lock()
+	m.upsertAndUnlock(n)
+}
+
+// Merge adopts a peer's record of a node if it is newer than ours: it has a
+// higher incarnation, or the node is not known here. The comparison and the
+// update are one step. Returns true if adopted.
+func (m *Membership) Merge(n *Node) bool {
+	m.mu.Lock()
+
+	cur, ok := m.nodes[n.ID]
+	if ok && n.Incarnation <= cur.Incarnation {
+		m.mu.Unlock()
+
+		return false
+	}
+
+	m.upsertAndUnlock(n)
+
+	return true
+}
 
+// upsertAndUnlock is the body of Upsert. Caller holds m.mu.
+func (m *Membership) upsertAndUnlock(n *Node) {
 	n.LastSeen = time.Now()
 	m.nodes[n.ID] = n
 
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 8924397..0a6dfe3 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3646,34 +3646,12 @@ func (dm *DistMemory) acceptGossip(nodes []*cluster.Node) {
 			continue
 		}
 
-		existing := false
-		for _, cur := range dm.membership.List() {
-			if cur.ID == node.ID {
-				existing = true
-
-				if node.Incarnation > cur.Incarnation {
-					dm.membership.Upsert(&cluster.Node{
-						ID:          node.ID,
-						Address:     node.Address,
-						State:       node.State,
-						Incarnation: node.Incarnation,
-						LastSeen:    time.Now(),
-					})
-				}
-
-				break
-			}
-		}
-
-		if !existing {
-			dm.membership.Upsert(&cluster.Node{
-				ID:          node.ID,
-				Address:     node.Address,
-				State:       node.State,
-				Incarnation: node.Incarnation,
-				LastSeen:    time.Now(),
-			})
-		}
+		dm.membership.Merge(&cluster.Node{
+			ID:          node.ID,
+			Address:     node.Address,
+			State:       node.State,
+			Incarnation: node.Incarnation,
+		})
 	}
 }
 
-- 
2.43.0


From a95b13068c7eca818b27661706a6dd487f650421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 42/78] fix: what is said against a pruned node does not bring
 it back

---
 internal/cluster/membership.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index 1b924a2..fc56477 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -62,13 +62,14 @@ func (m *Membership) Upsert(n *Node) {
 }
 
 // Merge adopts a peer's record of a node if it is newer than ours: it has a
-// higher incarnation, or the node is not known here. The comparison and the
-// update are one step. Returns true if adopted.
+// higher incarnation, or the node is not known here and alive (what is said
+// against a node we do not know, or no longer, must not bring it back).
+// The comparison and the update are one step. Returns true if adopted.
 func (m *Membership) Merge(n *Node) bool {
 	m.mu.Lock()
 
 	cur, ok := m.nodes[n.ID]
-	if ok && n.Incarnation <= cur.Incarnation {
+	if ok && n.Incarnation <= cur.Incarnation || !ok && n.State != NodeAlive {
 		m.mu.Unlock()
 
 		return false
-- 
2.43.0


From 6c1767cb36f783900c71b6bb518d6aa24cf05acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 43/78] fix: a refutation gets a higher incarnation than the
 claim

---
 internal/cluster/membership.go | 15 +++++++++++++--
 pkg/backend/dist_memory.go     |  4 +---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/cluster/membership.go b/internal/cluster/membership.go
index fc56477..ab1073a 100644
--- a/internal/cluster/membership.go
+++ b/internal/cluster/membership.go
@@ -247,16 +247,27 @@ func (m *Membership) Mark(id NodeID, state NodeState) bool {
 // NodeAlive; the typical caller already knows the local node is
 // alive but the explicit assignment guards against odd states the
 // local view might be holding.
-func (m *Membership) Refute(id NodeID) bool {
+func (m *Membership) Refute(id NodeID) bool { return m.refute(id, nil) }
+
+// RefuteClaim refutes a claim made at the given incarnation: the node's
+// incarnation goes above it. A claim older than the node's incarnation is
+// stale and ignored. Returns true if the claim was refuted.
+func (m *Membership) RefuteClaim(id NodeID, claimed uint64) bool { return m.refute(id, &claimed) }
+
+func (m *Membership) refute(id NodeID, claimed *uint64) bool {
 	m.mu.Lock()
 
 	n, ok := m.nodes[id]
-	if !ok {
+	if !ok || claimed != nil && *claimed < n.Incarnation {
 		m.mu.Unlock()
 
 		return false
 	}
 
+	if claimed != nil {
+		n.Incarnation = *claimed
+	}
+
 	n.Incarnation++
 
 	rebuild := n.State == NodeDead // back into ring ownership
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 0a6dfe3..aee21eb 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3677,12 +3677,10 @@ func (dm *DistMemory) refuteIfSuspected(claim *cluster.Node) {
 
 	// Only refute when the peer's claim is at >= our incarnation;
 	// older claims are stale and ignored.
-	if claim.Incarnation < dm.localNode.Incarnation {
+	if !dm.membership.RefuteClaim(dm.localNode.ID, claim.Incarnation) {
 		return
 	}
 
-	dm.membership.Refute(dm.localNode.ID)
-
 	dm.logger.Info(
 		"self-refuted suspect/dead claim from peer",
 		slog.Uint64("claim_incarnation", claim.Incarnation),
-- 
2.43.0


From 9c8be010cd0a2d5edc8f9a443df300a2a58be531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 44/78] fix: gossip reads the in-process transport's table
 under its lock

---
 pkg/backend/dist_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index aee21eb..9622d25 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -3617,7 +3617,7 @@ func (dm *DistMemory) runGossipTick() {
 	// transport's Gossip method, which routes via HTTP for the
 	// auto-created DistHTTPTransport.
 	if ip, ok := transport.(*InProcessTransport); ok {
-		if remote, ok2 := ip.backends[string(target.ID)]; ok2 {
+		if remote, ok2 := ip.lookup(string(target.ID)); ok2 {
 			remote.acceptGossip(snapshot)
 		}
 
-- 
2.43.0


From ead05c11b34dd8e8661a79fe67a94bcf70cfafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 45/78] fix: a heartbeat sample is of peers, not of the node
 itself

---
 pkg/backend/dist_memory.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 9622d25..604431b 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4910,7 +4910,7 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 
 	now := time.Now()
 
-	peers := dm.membership.List()
+	peers := slices.DeleteFunc(dm.membership.List(), func(n *cluster.Node) bool { return n.ID == dm.localNode.ID })
 	// optional sampling
 	if dm.hbSampleSize > 0 && dm.hbSampleSize < len(peers) {
 		// Fisher–Yates partial shuffle for first sampleCount elements
@@ -4933,10 +4933,6 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 	}
 
 	for _, node := range peers { // rename for clarity
-		if node.ID == dm.localNode.ID {
-			continue
-		}
-
 		dm.evaluateLiveness(ctx, now, node)
 	}
 }
-- 
2.43.0


From ca0775a887ca495faf85ef5ba25c6ba21a3f8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:39 +0000
Subject: [PATCH 46/78] fix: a peer is pruned or suspected only after it failed
 a probe

---
 pkg/backend/dist_memory.go | 75 ++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 604431b..ae00f63 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -4937,37 +4937,10 @@ func (dm *DistMemory) runHeartbeatTick(ctx context.Context) { //nolint:revive
 	}
 }
 
-// evaluateLiveness applies timeout-based transitions then performs a probe.
+// evaluateLiveness probes a peer and applies the resulting transition. The
+// timeouts only count against a peer that fails the probe: a sampled or
+// delayed round may not have probed a healthy peer for longer than that.
 func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node *cluster.Node) {
-	elapsed := now.Sub(node.LastSeen)
-
-	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
-		if dm.membership.Remove(node.ID) {
-			dm.metrics.nodesRemoved.Add(1)
-			dm.metrics.nodesDead.Add(1)
-
-			dm.logger.Warn(
-				"peer pruned (dead)",
-				slog.String("peer_id", string(node.ID)),
-				slog.String("peer_addr", node.Address),
-				slog.Duration("elapsed_since_seen", elapsed),
-			)
-		}
-
-		return
-	}
-
-	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter && node.State == cluster.NodeAlive { // suspect
-		dm.membership.Mark(node.ID, cluster.NodeSuspect)
-		dm.metrics.nodesSuspect.Add(1)
-
-		dm.logger.Info(
-			"peer marked suspect (timeout)",
-			slog.String("peer_id", string(node.ID)),
-			slog.Duration("elapsed_since_seen", elapsed),
-		)
-	}
-
 	transport := dm.loadTransport()
 	if transport == nil {
 		return
@@ -4980,7 +4953,7 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 
 	if err != nil {
 		dm.metrics.heartbeatFailure.Add(1)
-		dm.handleProbeFailure(ctx, transport, node, err)
+		dm.handleProbeFailure(ctx, transport, node, now.Sub(node.LastSeen), err)
 
 		return
 	}
@@ -4993,10 +4966,16 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 // handleProbeFailure runs the SWIM indirect-probe refutation path on
 // a direct-probe failure: when indirect probes are enabled and any
 // relay confirms the target is reachable, the direct failure is
-// dismissed as caller-side. Otherwise the target is escalated to
-// suspect. Extracted from evaluateLiveness to keep that function under
-// the function-length lint cap.
-func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTransport, node *cluster.Node, directErr error) {
+// dismissed as caller-side. Otherwise the target is pruned if it was last
+// seen too long ago, or escalated to suspect. Extracted from
+// evaluateLiveness to keep that function under the function-length lint cap.
+func (dm *DistMemory) handleProbeFailure(
+	ctx context.Context,
+	transport DistTransport,
+	node *cluster.Node,
+	elapsed time.Duration,
+	directErr error,
+) {
 	if dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID) {
 		dm.metrics.indirectProbeRefuted.Add(1)
 
@@ -5012,6 +4991,22 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 		return
 	}
 
+	if dm.hbDeadAfter > 0 && elapsed > dm.hbDeadAfter { // prune dead
+		if dm.membership.Remove(node.ID) {
+			dm.metrics.nodesRemoved.Add(1)
+			dm.metrics.nodesDead.Add(1)
+
+			dm.logger.Warn(
+				"peer pruned (dead)",
+				slog.String("peer_id", string(node.ID)),
+				slog.String("peer_addr", node.Address),
+				slog.Duration("elapsed_since_seen", elapsed),
+			)
+		}
+
+		return
+	}
+
 	if node.State != cluster.NodeAlive {
 		return
 	}
@@ -5019,6 +5014,16 @@ func (dm *DistMemory) handleProbeFailure(ctx context.Context, transport DistTran
 	dm.membership.Mark(node.ID, cluster.NodeSuspect)
 	dm.metrics.nodesSuspect.Add(1)
 
+	if dm.hbSuspectAfter > 0 && elapsed > dm.hbSuspectAfter {
+		dm.logger.Info(
+			"peer marked suspect (timeout)",
+			slog.String("peer_id", string(node.ID)),
+			slog.Duration("elapsed_since_seen", elapsed),
+		)
+
+		return
+	}
+
 	dm.logger.Info(
 		"peer marked suspect (probe failed)",
 		slog.String("peer_id", string(node.ID)),
-- 
2.43.0


From b2824b6b31830c816c52bf293157daac7488a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 47/78] fix: end every background loop with the construction
 context

The heartbeat, gossip, auto-sync and tombstone loops only listened for
Stop. After the context given to NewDistMemory had ended they kept
running, and the heartbeat loop suspected and pruned every peer because
its probes failed with a cancelled context. A probe that was under way
when the node stopped had the same effect.
---
 pkg/backend/dist_memory.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index ae00f63..c8e33a6 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -989,9 +989,9 @@ func NewDistMemory(ctx context.Context, opts ...DistMemoryOption) (IBackend[Dist
 
 	dm.startHeartbeatIfEnabled(lifeCtx)
 	dm.startHintReplayIfEnabled(lifeCtx)
-	dm.startGossipIfEnabled()
+	dm.startGossipIfEnabled(lifeCtx)
 	dm.startAutoSyncIfEnabled(lifeCtx)
-	dm.startTombstoneSweeper()
+	dm.startTombstoneSweeper(lifeCtx)
 	dm.startRebalancerIfEnabled(lifeCtx)
 	dm.startRepairQueueIfEnabled(lifeCtx)
 
@@ -1986,7 +1986,7 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 }
 
 // startTombstoneSweeper launches periodic compaction if configured.
-func (dm *DistMemory) startTombstoneSweeper() {
+func (dm *DistMemory) startTombstoneSweeper(ctx context.Context) {
 	if dm.tombstoneTTL <= 0 || dm.tombstoneSweepInt <= 0 {
 		return
 	}
@@ -2010,6 +2010,9 @@ func (dm *DistMemory) startTombstoneSweeper() {
 
 			case <-stopCh:
 				return
+
+			case <-ctx.Done():
+				return
 			}
 		}
 	}(stopCh)
@@ -3347,7 +3350,7 @@ func (dm *DistMemory) processHint(ctx context.Context, nodeID string, entry hint
 }
 
 // --- Simple gossip (in-process only) ---.
-func (dm *DistMemory) startGossipIfEnabled() {
+func (dm *DistMemory) startGossipIfEnabled(ctx context.Context) {
 	if dm.gossipInterval <= 0 {
 		return
 	}
@@ -3355,7 +3358,7 @@ func (dm *DistMemory) startGossipIfEnabled() {
 	stopCh := make(chan struct{})
 
 	dm.gossipStopCh = stopCh
-	go dm.gossipLoop(stopCh)
+	go dm.gossipLoop(ctx, stopCh)
 
 	dm.logger.Info(
 		"gossip loop started",
@@ -3459,6 +3462,8 @@ func (dm *DistMemory) autoSyncLoop(ctx context.Context, interval time.Duration,
 		select {
 		case <-stopCh:
 			return
+		case <-ctx.Done():
+			return
 		case <-timer.C:
 			clean := dm.runAutoSyncTick(ctx)
 			dm.updateAutoSyncBackoff(clean)
@@ -3561,7 +3566,7 @@ func (dm *DistMemory) nextAutoSyncDelay(interval time.Duration) time.Duration {
 	return interval * time.Duration(factor)
 }
 
-func (dm *DistMemory) gossipLoop(stopCh <-chan struct{}) {
+func (dm *DistMemory) gossipLoop(ctx context.Context, stopCh <-chan struct{}) {
 	ticker := time.NewTicker(dm.gossipInterval)
 	defer ticker.Stop()
 
@@ -3571,6 +3576,8 @@ func (dm *DistMemory) gossipLoop(stopCh <-chan struct{}) {
 			dm.runGossipTick()
 		case <-stopCh:
 			return
+		case <-ctx.Done():
+			return
 		}
 	}
 }
@@ -3926,6 +3933,8 @@ func (dm *DistMemory) heartbeatLoop(ctx context.Context, stopCh <-chan struct{})
 			dm.runHeartbeatTick(ctx)
 		case <-stopCh:
 			return
+		case <-ctx.Done():
+			return
 		}
 	}
 }
@@ -4951,6 +4960,10 @@ func (dm *DistMemory) evaluateLiveness(ctx context.Context, now time.Time, node
 
 	cancel()
 
+	if ctx.Err() != nil { // this node is stopping: the answer says nothing about the peer
+		return
+	}
+
 	if err != nil {
 		dm.metrics.heartbeatFailure.Add(1)
 		dm.handleProbeFailure(ctx, transport, node, now.Sub(node.LastSeen), err)
@@ -4976,7 +4989,13 @@ func (dm *DistMemory) handleProbeFailure(
 	elapsed time.Duration,
 	directErr error,
 ) {
-	if dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID) {
+	reachable := dm.indirectProbeK > 0 && dm.indirectProbeReachable(ctx, transport, node.ID)
+
+	if ctx.Err() != nil { // stopping while the relays were asked
+		return
+	}
+
+	if reachable {
 		dm.metrics.indirectProbeRefuted.Add(1)
 
 		dm.logger.Info(
-- 
2.43.0


From 4bdba045013e8cc0a5084c8ddb3a3f3ac983276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 48/78] fix: Stop sends every queued read repair

Stop set the repair queue to nil while reads were using it, did not wait
for batches that were being sent, and cancelled the context of a flush
under way; a repair queued after the final flush stayed in the queue.
---
 pkg/backend/dist_memory.go      |   2 -
 pkg/backend/dist_read_repair.go | 102 +++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index c8e33a6..3099b3c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1533,8 +1533,6 @@ func (dm *DistMemory) Stop(ctx context.Context) error {
 		// stop() blocks until the flusher goroutine emits its final
 		// flushAll and exits.
 		dm.repairQueue.stop()
-
-		dm.repairQueue = nil
 	}
 
 	// Unregister the OTel metric callback before tearing down the HTTP
diff --git a/pkg/backend/dist_read_repair.go b/pkg/backend/dist_read_repair.go
index 8643f46..235f362 100644
--- a/pkg/backend/dist_read_repair.go
+++ b/pkg/backend/dist_read_repair.go
@@ -36,6 +36,8 @@ type repairQueue struct {
 
 	mu      sync.Mutex
 	entries map[cluster.NodeID]map[string]*cache.Item
+	stopped bool           // the flusher ends: repairs are dispatched at once
+	flushes sync.WaitGroup // inline flushes; Add under mu and before stopped
 
 	transport func() DistTransport
 	metrics   *distMetrics
@@ -74,19 +76,24 @@ func (q *repairQueue) start(ctx context.Context) {
 	go q.run(ctx)
 }
 
-// stop signals shutdown, waits for the flusher to drain remaining
-// entries, then returns. Safe to call multiple times — repeated
-// closes on stopCh are guarded by the channel's already-closed
-// state via a select.
+// stop signals shutdown, waits until the flusher and the inline
+// flushes have dispatched the remaining entries, then returns. Safe to
+// call multiple times. A repair enqueued afterwards is dispatched
+// before enqueue returns.
 func (q *repairQueue) stop() {
-	select {
-	case <-q.stopCh:
-		// already closed
-	default:
+	q.mu.Lock()
+
+	if !q.stopped {
+		q.stopped = true
+
 		close(q.stopCh)
 	}
 
+	q.mu.Unlock()
+
 	<-q.doneCh
+
+	q.flushes.Wait()
 }
 
 // enqueue records a pending repair for (peer, item.Key). If a
@@ -109,6 +116,16 @@ func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *ca
 
 	q.mu.Lock()
 
+	if q.stopped {
+		q.mu.Unlock()
+
+		if transport := q.transport(); transport != nil {
+			q.dispatch(ctx, transport, peer, item)
+		}
+
+		return
+	}
+
 	peerEntries := q.entries[peer]
 	if peerEntries == nil {
 		peerEntries = map[string]*cache.Item{}
@@ -135,41 +152,55 @@ func (q *repairQueue) enqueue(ctx context.Context, peer cluster.NodeID, item *ca
 	peerEntries[item.Key] = &cloned
 
 	shouldFlush := len(peerEntries) >= q.maxBatchSize
+	if shouldFlush {
+		q.flushes.Add(1)
+	}
+
 	q.mu.Unlock()
 
 	if shouldFlush {
 		flushCtx := context.WithoutCancel(ctx)
 
-		go q.flushPeer(flushCtx, peer)
+		go func() {
+			defer q.flushes.Done()
+
+			q.flushPeer(flushCtx, peer)
+		}()
 	}
 }
 
 // run is the flusher goroutine body. Ticks on interval, flushes
 // everything; on stopCh signal, does one final flushAll, then
-// closes doneCh so stop() can return. Shutdown flushes use
-// context.WithoutCancel so the drain dispatches even when the
-// parent ctx is already Done — losing queued repairs on a clean
+// closes doneCh so stop() can return. Flushes use
+// context.WithoutCancel so they dispatch even when the parent ctx is
+// Done, before or meanwhile — losing queued repairs on a clean
 // stop would defeat the drain guarantee.
 func (q *repairQueue) run(ctx context.Context) {
 	defer close(q.doneCh)
 
+	flushCtx := context.WithoutCancel(ctx)
+
 	ticker := time.NewTicker(q.interval)
 	defer ticker.Stop()
 
 	for {
 		select {
 		case <-ctx.Done():
-			q.flushAll(context.WithoutCancel(ctx))
+			q.mu.Lock()
+			q.stopped = true
+			q.mu.Unlock()
+
+			q.flushAll(flushCtx)
 
 			return
 
 		case <-q.stopCh:
-			q.flushAll(context.WithoutCancel(ctx))
+			q.flushAll(flushCtx)
 
 			return
 
 		case <-ticker.C:
-			q.flushAll(ctx)
+			q.flushAll(flushCtx)
 		}
 	}
 }
@@ -228,24 +259,7 @@ func (q *repairQueue) flushPeer(ctx context.Context, peer cluster.NodeID) {
 
 	for _, it := range items {
 		g.Go(func() error {
-			err := transport.ForwardSet(ctx, string(peer), it, false)
-			if err != nil {
-				// Best-effort — log at Debug, count toward the
-				// aggregate readRepair budget anyway since the
-				// receiver might still apply some of them. Failures
-				// don't propagate to enqueue callers; the read path
-				// has already returned.
-				if q.logger != nil {
-					q.logger.Debug(
-						"read-repair flush: ForwardSet failed",
-						slog.String("peer", string(peer)),
-						slog.String("key", it.Key),
-						slog.Any("err", err),
-					)
-				}
-			}
-
-			q.metrics.readRepairBatched.Add(1)
+			q.dispatch(ctx, transport, peer, it)
 
 			return nil
 		})
@@ -254,6 +268,28 @@ func (q *repairQueue) flushPeer(ctx context.Context, peer cluster.NodeID) {
 	_ = g.Wait()
 }
 
+// dispatch sends one repair and counts it.
+func (q *repairQueue) dispatch(ctx context.Context, transport DistTransport, peer cluster.NodeID, it *cache.Item) {
+	err := transport.ForwardSet(ctx, string(peer), it, false)
+	if err != nil {
+		// Best-effort — log at Debug, count toward the
+		// aggregate readRepair budget anyway since the
+		// receiver might still apply some of them. Failures
+		// don't propagate to enqueue callers; the read path
+		// has already returned.
+		if q.logger != nil {
+			q.logger.Debug(
+				"read-repair flush: ForwardSet failed",
+				slog.String("peer", string(peer)),
+				slog.String("key", it.Key),
+				slog.Any("err", err),
+			)
+		}
+	}
+
+	q.metrics.readRepairBatched.Add(1)
+}
+
 // isHigherVersion reports whether `candidate` should replace
 // `existing` in the queue. Mirrors the chosen-version rule used
 // by repairLocalReplica (dist_memory.go:3508) — strict version
-- 
2.43.0


From 72a8325a0bf4356032b767c81b96f3a96246882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 49/78] fix: an item fetched over HTTP keeps its expiration

---
 pkg/backend/dist_http_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index fb6a6c8..8b972fe 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -296,7 +296,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 		return &cache.Item{
 			Key:         mirror.Key,
 			Value:       mirror.Value,
-			Expiration:  time.Duration(mirror.Expiration) * time.Millisecond,
+			Expiration:  time.Duration(mirror.Expiration),
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: mirror.LastUpdated,
-- 
2.43.0


From 662eb5cda3e5076d959f006d526bee1b6008125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 50/78] fix: a set over HTTP rounds expirations up to whole
 milliseconds

---
 pkg/backend/dist_http_transport.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 8b972fe..6001bf0 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -157,7 +157,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 	reqBody := httpSetRequest{
 		Key:         item.Key,
 		Value:       item.Value,
-		Expiration:  item.Expiration.Milliseconds(),
+		Expiration:  wholeMilliseconds(item.Expiration),
 		Version:     item.Version,
 		Origin:      item.Origin,
 		LastUpdated: item.LastUpdated,
@@ -253,6 +253,17 @@ func (t *DistHTTPTransport) ForwardGet(ctx context.Context, nodeID, key string)
 	return item, true, nil
 }
 
+// wholeMilliseconds rounds up: a positive duration never becomes zero, which
+// would mean that the item does not expire.
+func wholeMilliseconds(d time.Duration) int64 {
+	ms := d.Milliseconds()
+	if d > 0 && d%time.Millisecond > 0 {
+		ms++
+	}
+
+	return ms
+}
+
 func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 	var raw map[string]json.RawMessage
 
-- 
2.43.0


From 91827481b9baba8f964e15951bda07c88a9dde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 51/78] fix: ListKeys over HTTP reads every shard

---
 pkg/backend/dist_http_transport.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 6001bf0..581048d 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -507,9 +507,10 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		cursor string
 	)
 
-	const safetyLimit = 1024 // upper bound to prevent infinite loop on a buggy server
-
-	for range safetyLimit {
+	// One page per shard, however many there are. The cursor is the number of
+	// the next shard and has to grow, so that a buggy server cannot make this
+	// loop forever.
+	for shard := 0; ; {
 		page, err := t.listKeysPage(ctx, nodeID, cursor, pattern)
 		if err != nil {
 			return nil, err
@@ -525,15 +526,14 @@ func (t *DistHTTPTransport) ListKeys(ctx context.Context, nodeID, pattern string
 		// Without bumping limit, we'd loop forever — but ListKeys
 		// never sets a limit (it asks for the full shard each time),
 		// so server-side truncation cannot occur on this path.
-		// Defensive: break if cursor doesn't advance.
-		if page.NextCursor == cursor {
-			break
+		// Defensive: stop if cursor doesn't advance.
+		next, err := strconv.Atoi(page.NextCursor)
+		if err != nil || next <= shard {
+			return all, nil
 		}
 
-		cursor = page.NextCursor
+		shard, cursor = next, page.NextCursor
 	}
-
-	return all, nil
 }
 
 // listKeysPage is the per-page fetch for ListKeys; broken out so the
-- 
2.43.0


From 456d17f2ddf0c873186af442929e96bbab5b4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 52/78] fix: the tombstone of a removal over HTTP owns its key

---
 pkg/backend/dist_http_server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 7a7c99b..fb64622 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -9,6 +9,7 @@ import (
 	"net"
 	"net/http"
 	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -448,7 +449,8 @@ func (s *distHTTPServer) handleRemove(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusBadRequest).JSON(fiber.Map{constants.ErrorLabel: "invalid replicate"})
 	}
 
-	dm.applyRemove(s.ctx, key, replicate)
+	// The tombstone outlives the request; fiber reuses the query's memory.
+	dm.applyRemove(s.ctx, strings.Clone(key), replicate)
 
 	return fctx.SendStatus(fiber.StatusOK)
 }
-- 
2.43.0


From 160177356fe3be456345d5a0186929e22e472563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:30 +0000
Subject: [PATCH 53/78] fix: a set over HTTP keeps the value of large integers

---
 pkg/backend/dist_http_server.go |  8 +++-
 pkg/backend/dist_http_types.go  | 79 +++++++++++++++++++++++++++++++++
 2 files changed, 85 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index fb64622..3081b41 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -371,7 +371,11 @@ func (s *distHTTPServer) start(bindCtx context.Context, dm *DistMemory) error {
 // explicit gzip handling — it sees the plaintext JSON regardless of
 // whether the client compressed (CompressionThreshold > 0) or not.
 func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
-	var req httpSetRequest
+	var req struct {
+		httpSetRequest
+
+		Value exactJSON `json:"value"`
+	}
 
 	unmarshalErr := json.Unmarshal(fctx.Body(), &req)
 	if unmarshalErr != nil { // separated to satisfy noinlineerr
@@ -380,7 +384,7 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 
 	it := &cache.Item{
 		Key:         req.Key,
-		Value:       req.Value,
+		Value:       req.Value.v,
 		Expiration:  time.Duration(req.Expiration) * time.Millisecond,
 		Version:     req.Version,
 		Origin:      req.Origin,
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 0bb09a0..0ff77dc 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -1,8 +1,13 @@
 package backend
 
 import (
+	"bytes"
+	"strconv"
 	"time"
 
+	"github.com/goccy/go-json"
+	"github.com/hyp3rd/ewrap"
+
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -26,3 +31,77 @@ type httpGetResponse struct {
 	Item  *cache.Item `json:"item,omitempty"`
 	Error string      `json:"error,omitempty"`
 }
+
+// exactJSON is an arbitrary JSON value whose integers keep their value: those
+// a float64 cannot hold are decoded as int64 or uint64.
+type exactJSON struct{ v any }
+
+// UnmarshalJSON implements json.Unmarshaler.
+func (e *exactJSON) UnmarshalJSON(data []byte) error {
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+
+	var v any
+
+	err := dec.Decode(&v)
+	if err != nil {
+		return ewrap.Wrap(err, "unmarshal value")
+	}
+
+	e.v, err = exactNumbers(v)
+
+	return err
+}
+
+// exactNumbers replaces the json.Numbers in v by numbers of the same value.
+func exactNumbers(v any) (any, error) {
+	var err error
+
+	switch x := v.(type) {
+	case json.Number:
+		return exactNumber(x)
+	case []any:
+		for i := range x {
+			x[i], err = exactNumbers(x[i])
+			if err != nil {
+				return nil, err
+			}
+		}
+	case map[string]any:
+		for k := range x {
+			x[k], err = exactNumbers(x[k])
+			if err != nil {
+				return nil, err
+			}
+		}
+	default:
+	}
+
+	return v, nil
+}
+
+// exactNumber is n as a float64, unless n is an integer that a float64 rounds.
+func exactNumber(n json.Number) (any, error) {
+	const exact = 1 << 53 // integers up to here are exact in a float64
+
+	i, err := strconv.ParseInt(n.String(), 10, 64)
+	if err == nil {
+		if -exact <= i && i <= exact {
+			return float64(i), nil
+		}
+
+		return i, nil
+	}
+
+	u, err := strconv.ParseUint(n.String(), 10, 64)
+	if err == nil {
+		return u, nil
+	}
+
+	f, err := n.Float64()
+	if err != nil {
+		return nil, ewrap.Wrap(err, "unmarshal number")
+	}
+
+	return f, nil
+}
-- 
2.43.0


From ba6fa14cef4b7379428e0cfe3231336675a7f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 54/78] fix: NewDistMemoryWithConfig uses its configuration

---
 pkg/backend/dist_memory.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 3099b3c..a7e64a2 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -10,6 +10,7 @@ import (
 	"hash/fnv"
 	"log/slog"
 	"math/big"
+	"reflect"
 	"slices"
 	"strconv"
 	"strings"
@@ -999,7 +1000,8 @@ func NewDistMemory(ctx context.Context, opts ...DistMemoryOption) (IBackend[Dist
 }
 
 // NewDistMemoryWithConfig builds a DistMemory from an external dist.Config shape without introducing a direct import here.
-// Accepts a generic 'cfg' to avoid adding a dependency layer; expects exported fields matching internal/dist Config.
+// Accepts a generic 'cfg' to avoid adding a dependency layer; expects exported fields matching internal/dist Config
+// (a struct or a pointer to one; fields it lacks, or has with another type, are left at their zero value).
 func NewDistMemoryWithConfig(ctx context.Context, cfg any, opts ...DistMemoryOption) (IBackend[DistMemory], error) {
 	type minimalConfig struct { // external mirror subset
 		NodeID           string
@@ -1017,9 +1019,7 @@ func NewDistMemoryWithConfig(ctx context.Context, cfg any, opts ...DistMemoryOpt
 
 	var mc minimalConfig
 
-	if asserted, ok := cfg.(minimalConfig); ok { // best-effort copy
-		mc = asserted
-	}
+	copyMatchingFields(reflect.ValueOf(&mc).Elem(), reflect.Indirect(reflect.ValueOf(cfg))) // best-effort copy
 
 	derived := distOptionsFromMinimal(mc)
 
@@ -1043,6 +1043,21 @@ func NewDistMemoryWithConfig(ctx context.Context, cfg any, opts ...DistMemoryOpt
 	return dm, nil
 }
 
+// copyMatchingFields sets every field of dst that src has with the same name and type.
+func copyMatchingFields(dst, src reflect.Value) {
+	if src.Kind() != reflect.Struct {
+		return
+	}
+
+	for i := range dst.NumField() {
+		field := dst.Type().Field(i)
+
+		if from, ok := src.Type().FieldByName(field.Name); ok && len(from.Index) == 1 && from.Type == field.Type {
+			dst.Field(i).Set(src.FieldByIndex(from.Index))
+		}
+	}
+}
+
 // distOptionsFromMinimal converts a minimalConfig into DistMemoryOptions (pure helper for lint complexity reduction).
 func distOptionsFromMinimal(mc struct {
 	NodeID, BindAddr, AdvertiseAddr   string
-- 
2.43.0


From 0da044fb06eba2982751b885a456e7c83502d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:42 +0000
Subject: [PATCH 55/78] fix: a configuration can ask for consistency ALL

---
 pkg/backend/dist_memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index a7e64a2..402ed38 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1088,11 +1088,11 @@ func distOptionsFromMinimal(mc struct {
 	add(mc.Replication > 0, WithDistReplication(mc.Replication))
 	add(mc.VirtualNodes > 0, WithDistVirtualNodes(mc.VirtualNodes))
 	add(
-		mc.ReadConsistency >= 0 && mc.ReadConsistency <= int(ConsistencyQuorum),
+		mc.ReadConsistency >= 0 && mc.ReadConsistency <= int(ConsistencyAll),
 		WithDistReadConsistency(ConsistencyLevel(mc.ReadConsistency)),
 	)
 	add(
-		mc.WriteConsistency >= 0 && mc.WriteConsistency <= int(ConsistencyQuorum),
+		mc.WriteConsistency >= 0 && mc.WriteConsistency <= int(ConsistencyAll),
 		WithDistWriteConsistency(ConsistencyLevel(mc.WriteConsistency)),
 	)
 	add(mc.HintTTL > 0, WithDistHintTTL(mc.HintTTL))
-- 
2.43.0


From 7087e04db1ebdafb6c218699f14e7f0eee93ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:16 +0000
Subject: [PATCH 56/78] fix: keys in API paths are percent-decoded

---
 cmd/hypercache-server/main.go | 52 ++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 57a3d91..66f3a05 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -26,6 +26,7 @@ import (
 	"log/slog"
 	"net"
 	"net/http"
+	"net/url"
 	"os"
 	"os/signal"
 	"strconv"
@@ -425,6 +426,9 @@ var (
 	errAPITLSNoPEMInCA = ewrap.New("HYPERCACHE_API_TLS_CLIENT_CA: no PEM certificates parsed from file")
 )
 
+// errMissingPathKey is returned by pathKey when the route carries no key.
+var errMissingPathKey = ewrap.New("missing key in path")
+
 // registerClientRoutes wires every client-API route onto the
 // provided fiber app. Extracted from runClientAPI so tests
 // (handlers_test.go, auth_test.go, openapi_test.go) drive the same
@@ -607,6 +611,22 @@ func jsonErr(c fiber.Ctx, status int, code, msg string) error {
 	return c.Status(status).JSON(errorResponse{Error: msg, Code: code})
 }
 
+// pathKey returns the `:key` route parameter as the caller meant it:
+// percent-decoded, so that `/v1/cache/a%2Fb` names the same key as "a/b"
+// in a batch request, and detached from fiber's pooled request buffer.
+func pathKey(c fiber.Ctx) (string, error) {
+	key, err := url.PathUnescape(c.Params("key"))
+	if err != nil {
+		return "", fmt.Errorf("invalid key in path: %w", err)
+	}
+
+	if key == "" {
+		return "", errMissingPathKey
+	}
+
+	return strings.Clone(key), nil
+}
+
 // classifyAndRespond maps a service-level error to the right HTTP
 // status + code. Keeps the per-handler error-handling tight and
 // guarantees that adding a new sentinel anywhere in the stack only
@@ -687,9 +707,9 @@ const (
 // owners list is the operator's visibility into where the value
 // actually landed across the cluster.
 func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	ttl := time.Duration(0)
@@ -708,7 +728,7 @@ func handlePut(c fiber.Ctx, nodeCtx *nodeContext) error {
 	value := make([]byte, len(body))
 	copy(value, body) // detach from fiber's pooled body buffer
 
-	err := nodeCtx.hc.Set(c.Context(), key, value, ttl)
+	err = nodeCtx.hc.Set(c.Context(), key, value, ttl)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -875,9 +895,9 @@ func setItemHeaders(c fiber.Ctx, key string, it *cache.Item, nodeCtx *nodeContex
 // owners, etc. Lets API clients fetch metadata in one round-trip
 // instead of GET + HEAD.
 func handleGet(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	it, ok := nodeCtx.hc.GetWithInfo(c.Context(), key)
@@ -1174,8 +1194,8 @@ func classifyErrCode(err error) string {
 // without paying the value-transfer cost. Useful for
 // cache-revalidation flows and conditional logic.
 func handleHead(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
+	key, err := pathKey(c)
+	if err != nil {
 		return c.SendStatus(fiber.StatusBadRequest)
 	}
 
@@ -1285,14 +1305,14 @@ func decodeBase64Bytes(s string) ([]byte, bool) {
 // supposed to live — useful for follow-up retries against a
 // peer.
 func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	owners := nodeCtx.hc.ClusterOwners(key)
 
-	err := nodeCtx.hc.Remove(c.Context(), key)
+	err = nodeCtx.hc.Remove(c.Context(), key)
 	if err != nil {
 		return classifyAndRespond(c, err)
 	}
@@ -1310,9 +1330,9 @@ func handleDelete(c fiber.Ctx, nodeCtx *nodeContext) error {
 // the owners array even when the key has never been written, since
 // the ring is deterministic from the key + membership.
 func handleOwners(c fiber.Ctx, nodeCtx *nodeContext) error {
-	key := c.Params("key")
-	if key == "" {
-		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, "missing key in path")
+	key, err := pathKey(c)
+	if err != nil {
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	}
 
 	return c.JSON(ownersResponse{
-- 
2.43.0


From 87ad9a0fdb2cfcf6c3003bcbb575e742d27b8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 57/78] fix: an OIDC-only server does not admit anonymous
 callers

---
 cmd/hypercache-server/main.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 66f3a05..5268027 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -1599,8 +1599,19 @@ func run() int {
 
 	slog.SetDefault(logger)
 
-	// Preserve the pre-v2 zero-config dev posture: when neither
-	// HYPERCACHE_AUTH_CONFIG nor HYPERCACHE_AUTH_TOKEN is set, the
+	ctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	// OIDC is a credential class of its own: attach it before deciding
+	// whether any auth is configured, or a JWT-only deployment would be
+	// opened to anonymous callers below.
+	if !attachOIDCVerifier(ctx, &cfg, logger) {
+		return 1
+	}
+
+	// Preserve the pre-v2 zero-config dev posture: when none of
+	// HYPERCACHE_AUTH_CONFIG, HYPERCACHE_AUTH_TOKEN and
+	// HYPERCACHE_OIDC_ISSUER is set, the
 	// loader returns the zero Policy, and we explicitly opt into
 	// AllowAnonymous mode here with a loud warning. Without this,
 	// every protected route would 401 — every existing
@@ -1614,13 +1625,6 @@ func run() int {
 		cfg.AuthPolicy.AllowAnonymous = true
 	}
 
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
-
-	if !attachOIDCVerifier(ctx, &cfg, logger) {
-		return 1
-	}
-
 	logger.Info(
 		"hypercache-server starting",
 		slog.String("api_addr", cfg.APIAddr),
-- 
2.43.0


From a94d730eec7e25b2a785b8e2ff114d0086ddacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:51 +0000
Subject: [PATCH 58/78] fix: the API answers a bad TTL with 400

---
 cmd/hypercache-server/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 5268027..5ae88cf 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -637,6 +637,8 @@ func classifyAndRespond(c fiber.Ctx, err error) error {
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeDraining, "node is draining; redirect to a peer")
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return jsonErr(c, fiber.StatusServiceUnavailable, codeInternal, "no ring owners for key (cluster initializing?)")
+	case isInvalidInput(err):
+		return jsonErr(c, fiber.StatusBadRequest, codeBadRequest, err.Error())
 	default:
 		return jsonErr(c, fiber.StatusInternalServerError, codeInternal, err.Error())
 	}
@@ -1095,6 +1097,9 @@ func applyBatchPutItem(ctx context.Context, nodeCtx *nodeContext, item batchPutI
 	}
 
 	ttl := time.Duration(item.TTLMs) * time.Millisecond
+	if ttl.Milliseconds() != item.TTLMs { // overflow
+		return batchPutResult{Key: item.Key, Stored: false, Error: "ttl_ms out of range", Code: codeBadRequest}
+	}
 
 	setErr := nodeCtx.hc.Set(ctx, item.Key, value, ttl)
 	if setErr != nil {
@@ -1181,11 +1186,19 @@ func classifyErrCode(err error) string {
 		return codeDraining
 	case errors.Is(err, sentinel.ErrNotOwner):
 		return codeInternal
+	case isInvalidInput(err):
+		return codeBadRequest
 	default:
 		return codeInternal
 	}
 }
 
+// isInvalidInput reports whether err says that the caller's input was
+// refused (e.g. a negative TTL) rather than that the server failed.
+func isInvalidInput(err error) bool {
+	return errors.Is(err, sentinel.ErrInvalidExpiration) || errors.Is(err, sentinel.ErrInvalidKey)
+}
+
 // handleHead implements HEAD /v1/cache/:key — fast metadata
 // inspection. Returns 200 with X-Cache-* response headers when
 // the key is present, 404 when absent. No body.
-- 
2.43.0


From a7bb7d270e9bb7801c6d0814555136b7b96766f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:03 +0000
Subject: [PATCH 59/78] fix: a key already listed does not truncate the listing

---
 pkg/backend/dist_keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_keys.go b/pkg/backend/dist_keys.go
index 1653c25..e8aa60a 100644
--- a/pkg/backend/dist_keys.go
+++ b/pkg/backend/dist_keys.go
@@ -108,6 +108,10 @@ func (a *listKeysAccumulator) tryAdd(keys []string) {
 	defer a.mu.Unlock()
 
 	for _, k := range keys {
+		if _, known := a.dedup[k]; known {
+			continue
+		}
+
 		if len(a.dedup) >= a.maxKeys {
 			a.truncated = true
 
-- 
2.43.0


From 0459ab4fe3911aabd05f4036c35dfacc07ec1b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:06 +0000
Subject: [PATCH 60/78] fix: the API's 401 and 403 carry the documented error
 body

---
 cmd/hypercache-server/main.go      | 38 ++++++++++++++++++++++++++----
 cmd/hypercache-server/openapi.yaml |  4 ++--
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/cmd/hypercache-server/main.go b/cmd/hypercache-server/main.go
index 5ae88cf..42a8eb8 100644
--- a/cmd/hypercache-server/main.go
+++ b/cmd/hypercache-server/main.go
@@ -412,10 +412,12 @@ type errorResponse struct {
 // API error codes — kept as string constants for stable identity in
 // machine-readable consumers (alerting rules, client SDKs).
 const (
-	codeBadRequest = "BAD_REQUEST"
-	codeNotFound   = "NOT_FOUND"
-	codeDraining   = "DRAINING"
-	codeInternal   = "INTERNAL"
+	codeBadRequest   = "BAD_REQUEST"
+	codeUnauthorized = "UNAUTHORIZED"
+	codeForbidden    = "FORBIDDEN"
+	codeNotFound     = "NOT_FOUND"
+	codeDraining     = "DRAINING"
+	codeInternal     = "INTERNAL"
 )
 
 // TLS-config sentinel errors returned by buildAPITLSConfig. Wrapped
@@ -511,6 +513,7 @@ func runClientAPI(
 		ReadTimeout:  clientAPIReadTimeout,
 		WriteTimeout: clientAPIWriteTimeout,
 		IdleTimeout:  clientAPIIdleTimeout,
+		ErrorHandler: clientAPIErrorHandler,
 	})
 
 	registerClientRoutes(app, cfg.AuthPolicy, &nodeContext{hc: hc, nodeID: cfg.NodeID})
@@ -611,6 +614,33 @@ func jsonErr(c fiber.Ctx, status int, code, msg string) error {
 	return c.Status(status).JSON(errorResponse{Error: msg, Code: code})
 }
 
+// clientAPIErrorHandler renders the errors that no handler answered (the
+// auth middleware's 401/403, unknown routes, oversized bodies) in the
+// canonical errorResponse shape instead of fiber's plain text.
+func clientAPIErrorHandler(c fiber.Ctx, err error) error {
+	status := fiber.StatusInternalServerError
+
+	var fiberErr *fiber.Error
+	if errors.As(err, &fiberErr) {
+		status = fiberErr.Code
+	}
+
+	code := codeInternal
+
+	switch {
+	case status == fiber.StatusUnauthorized:
+		code = codeUnauthorized
+	case status == fiber.StatusForbidden:
+		code = codeForbidden
+	case status == fiber.StatusNotFound:
+		code = codeNotFound
+	case status < fiber.StatusInternalServerError:
+		code = codeBadRequest
+	}
+
+	return jsonErr(c, status, code, err.Error())
+}
+
 // pathKey returns the `:key` route parameter as the caller meant it:
 // percent-decoded, so that `/v1/cache/a%2Fb` names the same key as "a/b"
 // in a batch request, and detached from fiber's pooled request buffer.
diff --git a/cmd/hypercache-server/openapi.yaml b/cmd/hypercache-server/openapi.yaml
index a725e9c..c08cb8d 100644
--- a/cmd/hypercache-server/openapi.yaml
+++ b/cmd/hypercache-server/openapi.yaml
@@ -21,7 +21,7 @@ info:
 
     **Errors.** Every 4xx/5xx response carries the `ErrorResponse`
     shape with stable `code` strings (`BAD_REQUEST`, `NOT_FOUND`,
-    `DRAINING`, `INTERNAL`, `UNAUTHORIZED`).
+    `DRAINING`, `INTERNAL`, `UNAUTHORIZED`, `FORBIDDEN`).
   license:
     name: LicenseRef-Hyperd
     url: https://github.com/hyp3rd/hypercache/blob/main/LICENSE
@@ -563,7 +563,7 @@ components:
           description: Human-readable message.
         code:
           type: string
-          enum: [ BAD_REQUEST, NOT_FOUND, DRAINING, INTERNAL, UNAUTHORIZED ]
+          enum: [ BAD_REQUEST, NOT_FOUND, DRAINING, INTERNAL, UNAUTHORIZED, FORBIDDEN ]
           description: Stable machine-readable code.
 
     PutResponse:
-- 
2.43.0


From 7958e013dfce363c01e813602a2f4cfa860f4552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:04 +0000
Subject: [PATCH 61/78] fix: listing a distributed backend applies the filters

The expiration pass lists the expired items; without the filter it removed
every item of the node, on every replica.
---
 pkg/backend/dist_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 402ed38..3e088b2 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -28,6 +28,7 @@ import (
 	"go.opentelemetry.io/otel/trace/noop"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
+	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/eventbus"
 	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
@@ -1182,8 +1183,10 @@ func (dm *DistMemory) Set(ctx context.Context, item *cache.Item) error {
 
 // --- Consistency helper methods. ---
 
-// List aggregates items (no ordering, then filters applied per interface contract not yet integrated; kept simple);.
-func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, error) {
+// List aggregates the local items and applies the filters to them.
+func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item, error) {
+	var err error
+
 	items := make([]*cache.Item, 0, listPrealloc)
 	for _, s := range dm.shards {
 		for _, it := range s.items.All() {
@@ -1193,6 +1196,13 @@ func (dm *DistMemory) List(_ context.Context, _ ...IFilter) ([]*cache.Item, erro
 		}
 	}
 
+	for _, filter := range filters {
+		items, err = filter.ApplyFilter(constants.DistMemoryBackend, items)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	return items, nil
 }
 
-- 
2.43.0


From 6a4e296a5a2438216aca96eb13b2ba21c68340b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:25 +0000
Subject: [PATCH 62/78] fix: an item sent to another node keeps its age

A forwarded or replicated item was new again on arrival: a read through
another node returned expired values, and every migration renewed the
lifetime.
---
 pkg/backend/dist_http_server.go    |  6 +++---
 pkg/backend/dist_http_transport.go | 12 +++++++++++-
 pkg/backend/dist_http_types.go     | 17 +++++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index 3081b41..e24d542 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -389,7 +389,7 @@ func (s *distHTTPServer) handleSet(fctx fiber.Ctx, dm *DistMemory) error {
 		Version:     req.Version,
 		Origin:      req.Origin,
 		LastUpdated: req.LastUpdated,
-		LastAccess:  time.Now(),
+		LastAccess:  accessedAt(req.Age),
 	}
 	if it.LastUpdated.IsZero() { // a peer that does not send it
 		it.LastUpdated = time.Now()
@@ -426,8 +426,8 @@ func (*distHTTPServer) handleGet(fctx fiber.Ctx, dm *DistMemory) error {
 		return fctx.Status(fiber.StatusNotFound).JSON(fiber.Map{constants.ErrorLabel: "not owner"})
 	}
 
-	if it, ok := dm.shardFor(key).items.Get(key); ok {
-		return fctx.JSON(httpGetResponse{Found: true, Item: it})
+	if it, ok := dm.shardFor(key).items.GetCopy(key); ok {
+		return fctx.JSON(httpGetResponse{Found: true, Item: it, Age: ageOf(it)})
 	}
 
 	return fctx.JSON(httpGetResponse{Found: false})
diff --git a/pkg/backend/dist_http_transport.go b/pkg/backend/dist_http_transport.go
index 581048d..21e12ae 100644
--- a/pkg/backend/dist_http_transport.go
+++ b/pkg/backend/dist_http_transport.go
@@ -162,6 +162,7 @@ func (t *DistHTTPTransport) ForwardSet(ctx context.Context, nodeID string, item
 		Origin:      item.Origin,
 		LastUpdated: item.LastUpdated,
 		Replicate:   replicate,
+		Age:         ageOf(item),
 	}
 
 	payloadBytes, err := json.Marshal(&reqBody)
@@ -300,6 +301,15 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			return nil, false, ewrap.Wrap(err, "unmarshal mirror")
 		}
 
+		var age int64
+
+		if ab, hasAge := raw["age_ms"]; hasAge {
+			ageErr := json.Unmarshal(ab, &age)
+			if ageErr != nil {
+				return nil, false, ewrap.Wrap(ageErr, "unmarshal age")
+			}
+		}
+
 		if mirror.LastUpdated.IsZero() {
 			mirror.LastUpdated = time.Now()
 		}
@@ -311,7 +321,7 @@ func decodeGetBody(r io.Reader) (*cache.Item, bool, error) {
 			Version:     mirror.Version,
 			Origin:      mirror.Origin,
 			LastUpdated: mirror.LastUpdated,
-			LastAccess:  time.Now(),
+			LastAccess:  accessedAt(age),
 		}, true, nil
 	}
 
diff --git a/pkg/backend/dist_http_types.go b/pkg/backend/dist_http_types.go
index 0ff77dc..33c38e2 100644
--- a/pkg/backend/dist_http_types.go
+++ b/pkg/backend/dist_http_types.go
@@ -20,6 +20,7 @@ type httpSetRequest struct { // shared with server & transport
 	Origin      string    `json:"origin"`
 	LastUpdated time.Time `json:"last_updated"` // when the version was assigned; zero from older peers
 	Replicate   bool      `json:"replicate"`
+	Age         int64     `json:"age_ms,omitempty"` // time since the last access; zero from older peers
 }
 
 type httpSetResponse struct {
@@ -29,9 +30,25 @@ type httpSetResponse struct {
 type httpGetResponse struct {
 	Found bool        `json:"found"`
 	Item  *cache.Item `json:"item,omitempty"`
+	Age   int64       `json:"age_ms,omitempty"` // time since the item's last access
 	Error string      `json:"error,omitempty"`
 }
 
+// ageOf returns how long ago the item was last accessed, in milliseconds. Its
+// lifetime counts from then; the clocks of two nodes may differ.
+func ageOf(item *cache.Item) int64 {
+	if item.LastAccess.IsZero() {
+		return 0
+	}
+
+	return max(0, time.Since(item.LastAccess).Milliseconds())
+}
+
+// accessedAt returns the last access of an item which has the given age.
+func accessedAt(age int64) time.Time {
+	return time.Now().Add(-time.Duration(age) * time.Millisecond)
+}
+
 // exactJSON is an arbitrary JSON value whose integers keep their value: those
 // a float64 cannot hold are decoded as int64 or uint64.
 type exactJSON struct{ v any }
-- 
2.43.0


From bde7ce4c1567099476d309ff681b585469202d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:54 +0000
Subject: [PATCH 63/78] fix: an expired copy does not delete the key on other
 nodes

The expiration pass of one node removed the key cluster-wide, although its
own copy may be outdated: a value written or read since elsewhere was lost.
---
 hypercache.go              |  6 ++++++
 hypercache_expiration.go   | 10 ++++++++++
 pkg/backend/dist_memory.go | 18 ++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/hypercache.go b/hypercache.go
index 0e6e9a7..922e6ac 100644
--- a/hypercache.go
+++ b/hypercache.go
@@ -97,6 +97,12 @@ type exchangeBackend interface {
 	Take(ctx context.Context, key string, cond func(*cache.Item) bool) (*cache.Item, bool)
 }
 
+// expiryBackend is the optional interface of backends that share their items with
+// other nodes: an expired copy goes, the key is not deleted everywhere.
+type expiryBackend interface {
+	DropExpired(key string) (*cache.Item, bool)
+}
+
 // NewInMemoryWithDefaults initializes a new HyperCache with the default configuration.
 // The default configuration is:
 //   - The eviction interval is set to 10 minutes.
diff --git a/hypercache_expiration.go b/hypercache_expiration.go
index 30b2141..6840c5a 100644
--- a/hypercache_expiration.go
+++ b/hypercache_expiration.go
@@ -178,6 +178,16 @@ func (hyperCache *HyperCache[T]) expirationLoop(ctx context.Context) {
 // removeExpired removes the item with the given key and reports whether it did. The item may have been
 // accessed or replaced since it was listed; it then stays.
 func (hyperCache *HyperCache[T]) removeExpired(ctx context.Context, key string) (bool, error) {
+	if expirer, ok := hyperCache.backend.(expiryBackend); ok {
+		item, dropped := expirer.DropExpired(key)
+		if dropped {
+			hyperCache.memoryAllocation.Add(-item.Size)
+			hyperCache.evictionAlgorithm.Delete(key)
+		}
+
+		return dropped, nil
+	}
+
 	exchanger, ok := hyperCache.backend.(exchangeBackend)
 	if !ok {
 		return true, hyperCache.Remove(ctx, key)
diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 3e088b2..e3c262c 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -1206,6 +1206,24 @@ func (dm *DistMemory) List(_ context.Context, filters ...IFilter) ([]*cache.Item
 	return items, nil
 }
 
+// DropExpired removes the local copy of key if it has expired, and returns it.
+// The key is not deleted: another owner's copy may be newer. Only copies older
+// than the expired one must not come back.
+func (dm *DistMemory) DropExpired(key string) (*cache.Item, bool) {
+	sh := dm.shardFor(key)
+
+	sh.applyMu.Lock()
+	defer sh.applyMu.Unlock()
+
+	item, ok := sh.items.PopIf(key, (*cache.Item).Expired)
+	if ok && item.Version > 1 {
+		sh.putTombstone(key, tombstone{version: item.Version - 1, origin: string(dm.localNode.ID), at: item.LastUpdated})
+		dm.metrics.tombstonesActive.Store(dm.countTombstones())
+	}
+
+	return item, ok
+}
+
 // Remove deletes keys.
 func (dm *DistMemory) Remove(ctx context.Context, keys ...string) error {
 	ctx, span := dm.tracer.Start(
-- 
2.43.0


From 6edad84b26ad8aba99bb6ad2db86341637204d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:28 +0000
Subject: [PATCH 64/78] fix: the last members event says the current membership

---
 pkg/backend/dist_memory_events.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/backend/dist_memory_events.go b/pkg/backend/dist_memory_events.go
index cfa4c5d..2f2ff61 100644
--- a/pkg/backend/dist_memory_events.go
+++ b/pkg/backend/dist_memory_events.go
@@ -1,6 +1,7 @@
 package backend
 
 import (
+	"sync"
 	"time"
 
 	"github.com/hyp3rd/hypercache/internal/cluster"
@@ -52,7 +53,14 @@ func (dm *DistMemory) installEventBusObserver() {
 		return
 	}
 
+	// Snapshot and publish in one step: with two changes at once, the
+	// snapshot published last must not be the older one.
+	var publishMu sync.Mutex
+
 	dm.membership.OnStateChange(func(_ cluster.NodeID, _ cluster.NodeState, _ uint64) {
+		publishMu.Lock()
+		defer publishMu.Unlock()
+
 		dm.eventBus.Publish(eventbus.Event{
 			Type:    "members",
 			Payload: dm.membersSnapshot(),
-- 
2.43.0


From 113d617b11740bf7854fb5dfd413cf3da1f86977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:23 +0000
Subject: [PATCH 65/78] fix: a server stopped before it serves does not serve
 afterwards

---
 management_http.go              | 13 ++++++++++++-
 pkg/backend/dist_http_server.go | 12 +++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/management_http.go b/management_http.go
index d0bb7b7..7c3dbf8 100644
--- a/management_http.go
+++ b/management_http.go
@@ -3,6 +3,7 @@ package hypercache
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"sync/atomic"
@@ -288,7 +289,17 @@ func (s *ManagementHTTPServer) Shutdown(ctx context.Context) error {
 		s.lifeCancel()
 	}
 
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// A serve goroutine that has not picked up the listener yet must find
+	// it closed. In the normal case it already is.
+	_ = s.ln.Close()
+
+	if errors.Is(err, net.ErrClosed) {
+		return nil
+	}
+
+	return err
 }
 
 // mountRoutes.
diff --git a/pkg/backend/dist_http_server.go b/pkg/backend/dist_http_server.go
index e24d542..683bf99 100644
--- a/pkg/backend/dist_http_server.go
+++ b/pkg/backend/dist_http_server.go
@@ -745,5 +745,15 @@ func (s *distHTTPServer) stop(ctx context.Context) error {
 	// the previous `go func() { ch <- s.app.Shutdown() }()` pattern which
 	// leaked the shutdown goroutine when our ctx fired before fiber
 	// finished draining.
-	return s.app.ShutdownWithContext(ctx)
+	err := s.app.ShutdownWithContext(ctx)
+
+	// A serve goroutine that has not picked up the listener yet must find
+	// it closed. In the normal case it already is.
+	_ = s.ln.Close()
+
+	if errors.Is(err, net.ErrClosed) {
+		return nil
+	}
+
+	return err
 }
-- 
2.43.0


From cc9b9a8a5bae757a089b4f8da65399d629481f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 66/78] fix: redis backends default to a serializer that works

---
 pkg/backend/options.go       | 2 +-
 pkg/backend/redis.go         | 4 ++--
 pkg/backend/redis_cluster.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/backend/options.go b/pkg/backend/options.go
index 770a2d9..4efa0f1 100644
--- a/pkg/backend/options.go
+++ b/pkg/backend/options.go
@@ -61,7 +61,7 @@ func WithKeysSetName[T Redis](keysSetName string) Option[Redis] {
 }
 
 // WithSerializer is an option that sets the serializer to use. The serializer is used to serialize and deserialize the items in the cache.
-//   - The default serializer is `serializer.MsgpackSerializer`.
+//   - The default serializer is `serializer.DefaultJSONSerializer`.
 //   - The `serializer.JSONSerializer` can be used to serialize and deserialize the items in the cache as JSON.
 //   - The interface `serializer.ISerializer` can be implemented to use a custom serializer.
 func WithSerializer[T Redis](backendSerializer serializer.ISerializer) Option[Redis] {
diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 47fce73..efe6e9f 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -56,8 +56,8 @@ func NewRedis(redisOptions ...Option[Redis]) (IBackend[Redis], error) {
 	if rb.Serializer == nil {
 		var err error
 
-		// Set a the serializer to default to `msgpack`
-		rb.Serializer, err = serializer.New("msgpack")
+		// Default to the JSON serializer, `msgpack` is disabled
+		rb.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index acda234..9edd533 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -51,7 +51,7 @@ func NewRedisCluster(redisOptions ...Option[RedisCluster]) (IBackend[RedisCluste
 	if rc.Serializer == nil {
 		var err error
 
-		rc.Serializer, err = serializer.New("msgpack")
+		rc.Serializer, err = serializer.New("default")
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4063bf660e0662f7ca47839114a7104d6f1ebea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:55 +0000
Subject: [PATCH 67/78] fix: set, remove and clear work on a redis cluster of
 several slots and masters

---
 pkg/backend/redis_cluster.go |  6 ++++--
 pkg/backend/redis_common.go  | 31 +++++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index 9edd533..b6dbc55 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -128,9 +128,11 @@ func (cacheBackend *RedisCluster) Remove(ctx context.Context, keys ...string) er
 	return redisRemove(ctx, cacheBackend.rdb, cacheBackend.keysSetName, keys...)
 }
 
-// Clear flushes the database.
+// Clear flushes the database of every master.
 func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
-	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
+	err := cacheBackend.rdb.ForEachMaster(ctx, func(ctx context.Context, master *redis.Client) error {
+		return master.FlushDB(ctx).Err()
+	})
 
 	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
 }
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index d48a3f9..90179a6 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -14,6 +14,8 @@ import (
 // redisCmd abstracts the subset of go-redis client API we need.
 type redisCmd interface {
 	TxPipeline() redis.Pipeliner
+	Pipeline() redis.Pipeliner
+	SAdd(ctx context.Context, key string, members ...any) *redis.IntCmd
 	Pipelined(ctx context.Context, fn func(redis.Pipeliner) error) ([]redis.Cmder, error)
 	SMembers(ctx context.Context, key string) *redis.StringSliceCmd
 }
@@ -47,18 +49,29 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 		return ewrap.Wrap(err, "failed to set item in redis")
 	}
 
-	// Track key and TTL
-	pipe.SAdd(ctx, keysSetName, item.Key)
-
+	// TTL
 	if item.Expiration > 0 {
 		pipe.Expire(ctx, item.Key, item.Expiration)
 	}
 
+	// Track key: in the same transaction, unless the keys set may be in another slot
+	_, spread := client.(*redis.ClusterClient)
+	if !spread {
+		pipe.SAdd(ctx, keysSetName, item.Key)
+	}
+
 	_, err = pipe.Exec(ctx)
 	if err != nil {
 		return ewrap.Wrap(err, "failed to execute redis pipeline")
 	}
 
+	if spread {
+		err = client.SAdd(ctx, keysSetName, item.Key).Err()
+		if err != nil {
+			return ewrap.Wrap(err, "failed to track key in redis")
+		}
+	}
+
 	// success
 
 	return nil
@@ -127,15 +140,21 @@ func redisList(
 
 func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
 	pipe := client.TxPipeline()
+	if _, spread := client.(*redis.ClusterClient); spread {
+		// no transaction spans slots
+		pipe = client.Pipeline()
+	}
 
 	_, err := pipe.SRem(ctx, keysSetName, keys).Result()
 	if err != nil {
 		return ewrap.Wrap(err, "removing keys from set")
 	}
 
-	_, err = pipe.Del(ctx, keys...).Result()
-	if err != nil {
-		return ewrap.Wrap(err, "removing keys")
+	for _, key := range keys {
+		_, err = pipe.Del(ctx, key).Result()
+		if err != nil {
+			return ewrap.Wrap(err, "removing keys")
+		}
 	}
 
 	_, err = pipe.Exec(ctx)
-- 
2.43.0


From b60d705a245b7482b2de23a68289aeda9aa4365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:55 +0000
Subject: [PATCH 68/78] fix: an item in redis expires when it says, also one
 that overwrote another

---
 pkg/backend/redis_common.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 90179a6..973b742 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -49,9 +49,11 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 		return ewrap.Wrap(err, "failed to set item in redis")
 	}
 
-	// TTL
+	// TTL, replacing that of the item overwritten
 	if item.Expiration > 0 {
-		pipe.Expire(ctx, item.Key, item.Expiration)
+		pipe.PExpire(ctx, item.Key, item.Expiration)
+	} else {
+		pipe.Persist(ctx, item.Key)
 	}
 
 	// Track key: in the same transaction, unless the keys set may be in another slot
-- 
2.43.0


From 897bef19c1309135a56d1fbd046409e19a7c8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:55 +0000
Subject: [PATCH 69/78] fix: Count of a redis backend does not count the keys
 set

---
 pkg/backend/redis.go         | 8 ++++++--
 pkg/backend/redis_cluster.go | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index efe6e9f..6988178 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -83,12 +83,16 @@ func (cacheBackend *Redis) Capacity() int {
 
 // Count returns the number of items in the cache.
 func (cacheBackend *Redis) Count(ctx context.Context) int {
-	count, err := cacheBackend.rdb.DBSize(ctx).Result()
+	pipe := cacheBackend.rdb.TxPipeline()
+	count := pipe.DBSize(ctx)
+	sets := pipe.Exists(ctx, cacheBackend.keysSetName) // not an item
+
+	_, err := pipe.Exec(ctx)
 	if err != nil {
 		return 0
 	}
 
-	return int(count)
+	return int(count.Val() - sets.Val())
 }
 
 // Get retrieves the Item with the given key from the cacheBackend. If the item is not found, it returns nil.
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b6dbc55..403f57a 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -81,7 +81,12 @@ func (cacheBackend *RedisCluster) Count(ctx context.Context) int {
 		return 0
 	}
 
-	return int(count)
+	sets, err := cacheBackend.rdb.Exists(ctx, cacheBackend.keysSetName).Result() // not an item
+	if err != nil {
+		return 0
+	}
+
+	return int(max(count-sets, 0))
 }
 
 // Get retrieves an item by key.
-- 
2.43.0


From 83f093f5a49ad4048b786bf9d2acb94347950ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:55 +0000
Subject: [PATCH 70/78] fix: an item of a redis backend cannot replace or
 remove the keys set

---
 pkg/backend/redis_common.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 973b742..917f50d 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/hyp3rd/hypercache/internal/constants"
 	"github.com/hyp3rd/hypercache/internal/libs/serializer"
+	"github.com/hyp3rd/hypercache/internal/sentinel"
 	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
 )
 
@@ -29,6 +30,11 @@ func redisSet(ctx context.Context, client redisCmd, keysSetName string, item *ca
 		return err
 	}
 
+	// The keys set is not an item
+	if item.Key == keysSetName {
+		return sentinel.ErrInvalidKey
+	}
+
 	// Serialize item
 	data, err := ser.Marshal(item)
 	if err != nil {
@@ -153,6 +159,10 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 	}
 
 	for _, key := range keys {
+		if key == keysSetName {
+			continue // the keys set is not an item
+		}
+
 		_, err = pipe.Del(ctx, key).Result()
 		if err != nil {
 			return ewrap.Wrap(err, "removing keys")
-- 
2.43.0


From 5ea14267cc4ab2fac5fc847d4809dfb6a255cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:56 +0000
Subject: [PATCH 71/78] fix: a redis backend removes nothing without error and
 lists no items past a failed filter

---
 pkg/backend/redis_common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 917f50d..389949e 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -140,6 +140,9 @@ func redisList(
 	if len(filters) > 0 {
 		for _, filter := range filters {
 			items, err = filter.ApplyFilter(constants.RedisBackend, items)
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -147,6 +150,10 @@ func redisList(
 }
 
 func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys ...string) error {
+	if len(keys) == 0 {
+		return nil
+	}
+
 	pipe := client.TxPipeline()
 	if _, spread := client.(*redis.ClusterClient); spread {
 		// no transaction spans slots
-- 
2.43.0


From 260943ae8301cb421e40751df57f6f7b866254e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:41 +0000
Subject: [PATCH 72/78] fix: a successful Remove or Clear of a redis backend
 returns no error

---
 pkg/backend/redis.go         | 6 +++++-
 pkg/backend/redis_cluster.go | 6 +++++-
 pkg/backend/redis_common.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/redis.go b/pkg/backend/redis.go
index 6988178..b80d8ae 100644
--- a/pkg/backend/redis.go
+++ b/pkg/backend/redis.go
@@ -152,5 +152,9 @@ func (cacheBackend *Redis) Remove(ctx context.Context, keys ...string) error {
 func (cacheBackend *Redis) Clear(ctx context.Context) error {
 	_, err := cacheBackend.rdb.FlushDB(ctx).Result()
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(maxRetries, retriesDelay))
+	}
+
+	return nil
 }
diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index 403f57a..b9c144e 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -139,5 +139,9 @@ func (cacheBackend *RedisCluster) Clear(ctx context.Context) error {
 		return master.FlushDB(ctx).Err()
 	})
 
-	return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	if err != nil {
+		return ewrap.Wrap(err, "flushing database", ewrap.WithRetry(clusterMaxRetries, clusterRetriesDelay))
+	}
+
+	return nil
 }
diff --git a/pkg/backend/redis_common.go b/pkg/backend/redis_common.go
index 389949e..0393c43 100644
--- a/pkg/backend/redis_common.go
+++ b/pkg/backend/redis_common.go
@@ -178,5 +178,9 @@ func redisRemove(ctx context.Context, client redisCmd, keysSetName string, keys
 
 	_, err = pipe.Exec(ctx)
 
-	return ewrap.Wrap(err, "executing pipeline")
+	if err != nil {
+		return ewrap.Wrap(err, "executing pipeline")
+	}
+
+	return nil
 }
-- 
2.43.0


From 2cd0449fd1f8db29789154a4fed0eb1eb4021222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:53 +0000
Subject: [PATCH 73/78] fix: a get from a redis cluster sees the key before or
 after another client's change

---
 pkg/backend/redis_cluster.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pkg/backend/redis_cluster.go b/pkg/backend/redis_cluster.go
index b9c144e..2e94ae0 100644
--- a/pkg/backend/redis_cluster.go
+++ b/pkg/backend/redis_cluster.go
@@ -91,11 +91,8 @@ func (cacheBackend *RedisCluster) Count(ctx context.Context) int {
 
 // Get retrieves an item by key.
 func (cacheBackend *RedisCluster) Get(ctx context.Context, key string) (*cache.Item, bool) {
-	isMember, err := cacheBackend.rdb.SIsMember(ctx, cacheBackend.keysSetName, key).Result()
-	if err != nil || !isMember {
-		return nil, false
-	}
-
+	// One command, on the key itself: the keys set may be in another slot, and
+	// says nothing about the key while another client sets or removes it
 	pooled := cacheBackend.itemPoolManager.Get()
 
 	data, err := cacheBackend.rdb.HGet(ctx, key, "data").Bytes()
-- 
2.43.0


From 15e6bec53cc2fa31e9a305a5202d02c0703b9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:37 +0000
Subject: [PATCH 74/78] fix: a copy that is needed again and lost again gets a
 whole grace period

---
 pkg/backend/dist_memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index e3c262c..57f4005 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -2223,6 +2223,10 @@ func (dm *DistMemory) shouldRebalance(sh *distShard, it *cache.Item) bool {
 		return true
 	}
 
+	if dm.removalGracePeriod > 0 { // owned (again): a later loss gets a whole grace period
+		dm.forgetRemoval(it.Key)
+	}
+
 	if dm.ring == nil || sh.originalPrimary == nil { // nothing else to compare
 		return false
 	}
-- 
2.43.0


From ca69c0d4e22f4177548b61e7745d32a4be9a33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:16 +0000
Subject: [PATCH 75/78] fix: an auth configuration of several YAML documents is
 refused, not loaded in part

---
 pkg/httpauth/loader.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/httpauth/loader.go b/pkg/httpauth/loader.go
index 637a7e3..9443c79 100644
--- a/pkg/httpauth/loader.go
+++ b/pkg/httpauth/loader.go
@@ -1,7 +1,9 @@
 package httpauth
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"regexp"
 
@@ -167,6 +169,11 @@ func loadFromFile(path string) (Policy, error) {
 		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, redactYAMLError(err))
 	}
 
+	err = checkRest(dec)
+	if err != nil {
+		return Policy{}, fmt.Errorf("%w: parse %s: %w", ErrInvalidPolicy, path, redactYAMLError(err))
+	}
+
 	policy, err := schemaToPolicy(schema)
 	if err != nil {
 		return Policy{}, fmt.Errorf("%w: %s: %w", ErrInvalidPolicy, path, err)
@@ -180,6 +187,29 @@ func loadFromFile(path string) (Policy, error) {
 	return policy, nil
 }
 
+var errManyDocuments = ewrap.New("more than one YAML document")
+
+// checkRest refuses a file with more than one YAML document: Decode stops at
+// the end of the first, and what follows would silently be ignored.
+func checkRest(dec *yaml.Decoder) error {
+	for {
+		var doc yaml.Node
+
+		err := dec.Decode(&doc)
+		if errors.Is(err, io.EOF) {
+			return nil
+		}
+
+		if err != nil {
+			return err
+		}
+
+		if len(doc.Content) > 0 && doc.Content[0].Tag != "!!null" {
+			return errManyDocuments
+		}
+	}
+}
+
 // yamlScalar matches the places where yaml.v3 quotes document content in
 // its errors: a value of the wrong type, and an alias (an unquoted value
 // starting with `*`) without an anchor. A list of bare token strings under
-- 
2.43.0


From 12fa717282b934101ae6177c558b4053f13e0b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:14 +0000
Subject: [PATCH 76/78] fix: a YAML error about a value its tag does not fit
 does not quote the value

---
 pkg/httpauth/loader.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/httpauth/loader.go b/pkg/httpauth/loader.go
index 9443c79..c92be9c 100644
--- a/pkg/httpauth/loader.go
+++ b/pkg/httpauth/loader.go
@@ -211,10 +211,10 @@ func checkRest(dec *yaml.Decoder) error {
 }
 
 // yamlScalar matches the places where yaml.v3 quotes document content in
-// its errors: a value of the wrong type, and an alias (an unquoted value
-// starting with `*`) without an anchor. A list of bare token strings under
-// `tokens:` is the typical case.
-var yamlScalar = regexp.MustCompile("(?s)`.*` into|anchor '.*' ")
+// its errors: a value of the wrong type, a value its explicit tag does not
+// fit, and an alias (an unquoted value starting with `*`) without an anchor.
+// A list of bare token strings under `tokens:` is the typical case.
+var yamlScalar = regexp.MustCompile("(?s)`.*` |anchor '.*' ")
 
 // redactYAMLError drops document content from a YAML decoding error and
 // keeps what the operator needs to find the mistake (line, expected type,
@@ -222,7 +222,7 @@ var yamlScalar = regexp.MustCompile("(?s)`.*` into|anchor '.*' ")
 func redactYAMLError(err error) error {
 	return ewrap.New(yamlScalar.ReplaceAllStringFunc(err.Error(), func(m string) string {
 		if m[0] == '`' {
-			return "[redacted] into"
+			return "[redacted] "
 		}
 
 		return "anchor [redacted] "
-- 
2.43.0


From 28700f50a3e4baec46abca93c2b69945cc4c29bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:00 +0000
Subject: [PATCH 77/78] fix: ARC reports the empty key it evicts instead of
 answering that nothing was evicted

---
 pkg/eviction/arc.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/eviction/arc.go b/pkg/eviction/arc.go
index 526e45a..e66b60f 100644
--- a/pkg/eviction/arc.go
+++ b/pkg/eviction/arc.go
@@ -266,17 +266,12 @@ func (a *ARC) Evict() (string, bool) {
 		return "", false
 	}
 
-	key := a.replace("")
-	if key == "" {
-		return "", false
-	}
-
-	return key, true
+	return a.replace("")
 }
 
 // replace evicts one resident from T1 or T2 and places its key into B1 or B2.
-// Returns the evicted resident key (if any).
-func (a *ARC) replace(x string) string {
+// Returns the evicted resident key and whether there was one: the empty string is a key like any other.
+func (a *ARC) replace(x string) (string, bool) {
 	fromT1 := a.t1.len > 0 && ((x != "" && a.b2Idx[x] != nil && a.t1.len == a.p) || (a.t1.len > a.p) || a.t2.len == 0)
 	if fromT1 {
 		if tail := a.t1.removeTail(); tail != nil {
@@ -286,7 +281,7 @@ func (a *ARC) replace(x string) string {
 			a.b1Idx[tail.key] = a.b1.head
 			a.length--
 
-			return tail.key
+			return tail.key, true
 		}
 	} else {
 		if tail := a.t2.removeTail(); tail != nil {
@@ -296,11 +291,11 @@ func (a *ARC) replace(x string) string {
 			a.b2Idx[tail.key] = a.b2.head
 			a.length--
 
-			return tail.key
+			return tail.key, true
 		}
 	}
 
-	return ""
+	return "", false
 }
 
 // updateIfResident updates value and placement for keys already in T1 or T2.
-- 
2.43.0


From 9c932878121bbd14df9c1bd9a966fcfb53ae1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:39 +0000
Subject: [PATCH 78/78] fix: anti-entropy settles copies of the same version by
 different coordinators

---
 pkg/backend/dist_memory.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/backend/dist_memory.go b/pkg/backend/dist_memory.go
index 57f4005..020e0d0 100644
--- a/pkg/backend/dist_memory.go
+++ b/pkg/backend/dist_memory.go
@@ -572,6 +572,9 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 			if e.removed { // a delete differs from a write of the same version
 				_, _ = hasher.Write([]byte{1})
 			}
+
+			// so do writes of the same version by different coordinators
+			_, _ = hasher.Write([]byte(e.origin + "\x00"))
 		}
 
 		leaves = append(leaves, append([]byte(nil), hasher.Sum(nil)...))
@@ -591,7 +594,8 @@ func (dm *DistMemory) BuildMerkleTree() *MerkleTree {
 type merkleKV struct {
 	k       string
 	v       uint64
-	removed bool // a tombstone
+	origin  string // of an item
+	removed bool   // a tombstone
 }
 
 // DiffLeafRanges compares two trees and returns indexes of differing leaf chunks.
@@ -1954,7 +1958,7 @@ func (dm *DistMemory) fetchAndAdopt(ctx context.Context, nodeID, key string, rem
 		return
 	}
 
-	if cur, okLocal := sh.items.Get(key); !okLocal || it.Version > cur.Version {
+	if cur, okLocal := sh.items.Get(key); !okLocal || isHigherVersion(it, cur) {
 		dm.applySet(ctx, it, false)
 		dm.metrics.merkleKeysPulled.Add(1)
 	}
@@ -2011,7 +2015,7 @@ func (dm *DistMemory) merkleEntries() []merkleKV {
 		}
 
 		for k, it := range shard.items.All() {
-			entries = append(entries, merkleKV{k: k, v: it.Version})
+			entries = append(entries, merkleKV{k: k, v: it.Version, origin: it.Origin})
 		}
 
 		shard.tombsMu.RLock()
-- 
2.43.0

