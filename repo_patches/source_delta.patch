From cebc8cb8329895cb4cd2e3c208ecb8b31ca66140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 01/24] fix: collector must register configured targets with
 the cache

The cache drops updates, and the Subscribe server refuses subscriptions, for
targets it does not know; nothing was ever relayed.
---
 cmd/gnmi_collector/gnmi_collector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..c283861 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -264,6 +264,8 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// Make the target known to the cache before its stream can deliver anything.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
-- 
2.43.0


From 3d2d66cf6ed56cd1e46fafe4ff469f5d47f3e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 02/24] fix: collector must install the change feed before
 starting targets

Targets started before SetClient could deliver updates to the no-op client
and raced with the unsynchronised write of Target.client.
---
 cmd/gnmi_collector/gnmi_collector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index c283861..d4ee3f0 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -211,9 +211,6 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
@@ -221,6 +218,11 @@ func runCollector(ctx context.Context) error {
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
 	// Forward streaming updates to clients.
 	c.cache.SetClient(subscribeSrv.Update)
+
+	// Initialize collectors. The change feed must be in place before the first
+	// target can deliver an update.
+	c.start(context.Background())
+
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
-- 
2.43.0


From a32b40269bca1f5e0afe4ee2874698e2403f97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 03/24] fix: gnmi_cli Subscribe must honour -proto_file

---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From 1d55d12dfaa6c5f1d122cc622db36a6df1631b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 04/24] fix: delete notifications must not share the stored
 prefix's backing array

Appending to the prefix of a stored (possibly caller shared) notification
let one delete notification overwrite the path of another.
---
 cache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..20bafd9 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -614,9 +614,9 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(append([]*pb.PathElem{}, prefix.GetElem()...), path.GetElem()...)}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		d.Delete = []*pb.Path{{Element: append(append([]string{}, prefix.GetElement()...), path.GetElement()...)}}
 	}
 	return d
 }
-- 
2.43.0


From e0fd4e6bb5ef23807263f33e2f7741669cbc6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 05/24] fix: delete notifications must keep both halves of a
 mixed Elem/Element path

A prefix in Elem form with a path in the deprecated Element form (or the
reverse) is indexed by both, but only the Elem half was announced as deleted.
---
 cache/cache.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 20bafd9..a5a16a2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -596,6 +596,19 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	return t.t.GetLeaf(path), nil
 }
 
+// pathElems returns the elements of p, converting the deprecated Element form
+// when that is what indexes p.
+func pathElems(p *pb.Path) []*pb.PathElem {
+	if len(p.GetElem()) > 0 {
+		return p.GetElem()
+	}
+	var elems []*pb.PathElem
+	for _, e := range p.GetElement() {
+		elems = append(elems, &pb.PathElem{Name: e})
+	}
+	return elems
+}
+
 func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification {
 	d := &pb.Notification{
 		Timestamp: timestamp,
@@ -614,7 +627,7 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(append([]*pb.PathElem{}, prefix.GetElem()...), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(append([]*pb.PathElem{}, pathElems(prefix)...), pathElems(path)...)}}
 	default:
 		d.Delete = []*pb.Path{{Element: append(append([]string{}, prefix.GetElement()...), path.GetElement()...)}}
 	}
-- 
2.43.0


From a35aa54bb1ff4dc792fc81a519395c78679f0019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 06/24] fix: an update replacing an atomic group must not be
 suppressed

The suppression check compared only the first value of the atomic group.
---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index a5a16a2..75f6893 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -569,7 +569,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 		oldval.Update(n)
 		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
-- 
2.43.0


From 3e33b2f691bd474aad2574b4490eff305e826fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/24] fix: empty and short metadata paths must not panic the
 cache ingest path

An update or delete whose indexed path is empty, or is just the metadata
root, was indexed out of range.
---
 cache/cache.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 75f6893..f1e8ccc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -504,7 +504,13 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		suffix = nil
 	}
 	path := joinPrefixAndPath(n.Prefix, suffix)
+	if len(path) == 0 {
+		return nil, errors.New("update has an empty path")
+	}
 	if path[0] == metadata.Root {
+		if len(path) == 1 {
+			return nil, fmt.Errorf("update replaces the whole %q subtree", metadata.Root)
+		}
 		realData = false
 		u := n.Update[0]
 		switch path[1] {
@@ -636,7 +642,7 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -778,7 +784,9 @@ func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	p := path.ToStrings(pr, true)
 	p = append(p, path.ToStrings(ph, false)...)
 	// remove the prepended target name
-	p = p[1:]
+	if pr.GetTarget() != "" {
+		p = p[1:]
+	}
 	return p
 }
 
-- 
2.43.0


From cbf6f4dc2c064e79c8609735e79ff8bda4a212d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 08/24] fix: metadata updates without a value must be rejected,
 not crash

---
 cache/cache.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index f1e8ccc..6031b3e 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -516,20 +516,20 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
-- 
2.43.0


From 97186166c49726d73760f4588595a6fc136d6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 09/24] fix: metadata refresh must not crash on metadata leaves
 of another type

A remote target may store a value of any type (or none) below the metadata
root; the refresh asserted its own types on what it found there.
---
 cache/cache.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6031b3e..0b9104b 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -699,6 +699,15 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// current reports whether the metadata leaf at path already holds the value in n.
+func (t *Target) current(path []string, n *pb.Notification) bool {
+	prev, ok := t.t.GetLeafValue(path).(*pb.Notification)
+	if !ok || len(prev.GetUpdate()) == 0 {
+		return false
+	}
+	return value.Equal(prev.Update[0].GetVal(), n.Update[0].GetVal())
+}
+
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -708,10 +717,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		if err != nil {
 			continue
 		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
-			noti := metaNotiBool(t.name, value, v)
+		noti := metaNotiBool(t.name, value, v)
+		if !t.current(metadata.Path(value), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -728,10 +735,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		if err != nil {
 			continue
 		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
-			noti := metaNotiInt(t.name, value, v)
+		noti := metaNotiInt(t.name, value, v)
+		if !t.current(metadata.Path(value), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -748,10 +753,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 		if err != nil {
 			continue
 		}
-		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
-			noti := metaNotiStr(t.name, value, v)
+		noti := metaNotiStr(t.name, value, v)
+		if !t.current(metadata.Path(value), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
-- 
2.43.0


From e15da0d2dd67deb2b37cd99ae34edd05fe90b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 10/24] fix: deleting metadata leaves must not change the leaf
 counters

Only non-metadata leaves are counted when added, so a ConnectError followed
by Connect drove the leaf count to -1.
---
 cache/cache.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b9104b..c1bafbe 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -640,21 +640,35 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	return d
 }
 
+// isRealData reports whether the stored notification n is target data rather
+// than a metadata leaf.
+func isRealData(n *pb.Notification) bool {
+	var suffix *pb.Path
+	if !n.GetAtomic() {
+		suffix = n.GetUpdate()[0].GetPath()
+	}
+	path := joinPrefixAndPath(n.GetPrefix(), suffix)
+	return len(path) == 0 || path[0] != metadata.Root
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	deleted := int64(0)
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		if isRealData(d) {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
 	if len(leaves) == 0 {
 		return nil
 	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
-- 
2.43.0


From e8f15e397f6a5f01835adb6fa6e094c39f5fc5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 11/24] fix: guard the target's sync flag and latest timestamp

The periodic metadata refresh and lifecycle events share both with the
target's update stream; the sync flag was accessed without any lock and the
latest timestamp was read without the lock that protects its writes.
---
 cache/cache.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c1bafbe..5681fce 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -63,7 +63,7 @@ type Target struct {
 	sync            bool               // denotes whether this cache is in sync with target
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
-	tsmu            sync.Mutex         // protects latest timestamp
+	tsmu            sync.Mutex         // protects latest timestamp and sync
 	ts              time.Time          // latest timestamp for an update
 	excludedMeta    stringset.Set      // set of metadata not to generate update for
 	futureThreshold time.Duration      // how far in the future an update can be accepted
@@ -496,6 +496,22 @@ func (t *Target) resetTimestamp() {
 	t.ts = time.Time{}
 }
 
+// synced reports whether the cache is in sync with the target.
+func (t *Target) synced() bool {
+	t.tsmu.Lock()
+	s := t.sync
+	t.tsmu.Unlock()
+	return s
+}
+
+// latestTimestamp returns the latest accepted timestamp.
+func (t *Target) latestTimestamp() time.Time {
+	t.tsmu.Lock()
+	ts := t.ts
+	t.tsmu.Unlock()
+	return ts
+}
+
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	realData := true
 	suffix := n.Update[0].Path
@@ -520,8 +536,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
+			t.tsmu.Lock()
 			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.tsmu.Unlock()
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -560,13 +578,14 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
+			latest := t.latestTimestamp()
+			if latest.UnixNano() <= 0 {
 				// This is the first accepted update as t.ts is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -580,7 +599,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -594,7 +613,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
-- 
2.43.0


From 3d9dd324c67b4512e218212a717a19c9643ce0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 12/24] fix: track the latest timestamp of every accepted
 target update

The check looked only at the Elem form of the first update's own path, so
updates in the deprecated Element form, or addressed by the prefix alone, were
not tracked, and one sibling decided for a whole multi-update notification.
---
 cache/cache.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 5681fce..981385d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,7 +423,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
 			if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -593,6 +579,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			// Record latest timestamp from the device, excluding all 'meta' paths.
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -610,6 +600,8 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		// Record latest timestamp from the device, excluding all 'meta' paths.
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-- 
2.43.0


From 5f08f8f68c7e8a63c5212d10c09294d2a068b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:31 +0000
Subject: [PATCH 13/24] fix: a rejected metadata update must not change the
 target's metadata

Stale updates of the sync, connected and address leaves were applied to the
metadata before being rejected.
---
 cache/cache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 981385d..100779b 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -500,6 +500,7 @@ func (t *Target) latestTimestamp() time.Time {
 
 func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	realData := true
+	accepted := func() {}
 	suffix := n.Update[0].Path
 	// If the notification is an atomic group of updates, store them under the prefix only.
 	if n.Atomic {
@@ -515,6 +516,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		}
 		realData = false
 		u := n.Update[0]
+		// Metadata changes only once the update has been accepted.
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
@@ -522,22 +524,24 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.tsmu.Lock()
-			t.sync = tv.BoolVal
-			t.tsmu.Unlock()
-			t.meta.SetBool(metadata.Sync, tv.BoolVal)
+			accepted = func() {
+				t.tsmu.Lock()
+				t.sync = tv.BoolVal
+				t.tsmu.Unlock()
+				t.meta.SetBool(metadata.Sync, tv.BoolVal)
+			}
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
-			t.meta.SetBool(metadata.Connected, tv.BoolVal)
+			accepted = func() { t.meta.SetBool(metadata.Connected, tv.BoolVal) }
 		case metadata.ConnectedAddr, metadata.ConnectError:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
-			t.meta.SetStr(path[1], tv.StringVal)
+			accepted = func() { t.meta.SetStr(path[1], tv.StringVal) }
 		}
 	}
 	// Update an existing leaf.
@@ -579,6 +583,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		accepted()
 		if realData {
 			// Record latest timestamp from the device, excluding all 'meta' paths.
 			t.checkTimestamp(T(n.GetTimestamp()))
@@ -599,6 +604,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	if err := t.t.Add(path, n); err != nil {
 		return nil, err
 	}
+	accepted()
 	if realData {
 		// Record latest timestamp from the device, excluding all 'meta' paths.
 		t.checkTimestamp(T(n.GetTimestamp()))
-- 
2.43.0


From f0c1e7d50eb8e54660bad91eb25d678eedcd6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 14/24] fix: a subscription without a path must stream the
 whole prefix

The initial walk treats a missing path as the prefix itself, but no match was
registered for it, so such a stream never received an update after its sync.
---
 subscribe/subscribe.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..df5f0f5 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -225,9 +225,6 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		query := prefix
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
 			query = append(prefix, origin)
-- 
2.43.0


From 21a533f87549f4e9cf1d1e4e7b5050b331550437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 15/24] fix: removing a match query must remove the query that
 was added

Subscription queries of one client are built on a shared prefix slice, so the
remove function of all but the last saw an overwritten query and left stale
registrations behind.
---
 match/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/match/match.go b/match/match.go
index bd23c9e..96df7aa 100644
--- a/match/match.go
+++ b/match/match.go
@@ -50,6 +50,9 @@ func New() *Match {
 // AddQuery registers a client callback for all matching nodes. It returns a
 // callback to remove the query.  The remove function is idempotent.
 func (m *Match) AddQuery(query []string, client Client) (remove func()) {
+	// The remove function outlives this call; do not depend on the caller leaving
+	// the backing array of query alone.
+	query = append([]string(nil), query...)
 	defer m.mu.Unlock()
 	m.mu.Lock()
 	m.tree.addQuery(query, client)
-- 
2.43.0


From a60802533a8d60b8af2b6930b1253cdad87e2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 16/24] fix: offer a notification at most once to each
 streaming client

A single-update notification was offered once per matching subscription path,
duplicating deletes and inflating duplicate counts.
---
 subscribe/subscribe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index df5f0f5..338d2bc 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,9 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client can match more than once even for a single update, through
+	// overlapping subscription paths.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From 5f7fba433a40a6d58e4646e66811d4c3b20a3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 17/24] fix: time out a blocked send of the sync response

Only update responses armed the send timer; a subscriber that stalled on the
sync response was never terminated.
---
 subscribe/subscribe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 338d2bc..d915c51 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -511,7 +511,11 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			// The send timeout covers the sync marker, too.
+			t.Reset(s.o.timeout)
+			err = c.stream.Send(subscribeSync)
+			t.Stop()
+			if err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From af6f7ae15c4b3bfd154a55eb601fe77f2b3da886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 18/24] fix: deleting from an empty tree or through a leaf must
 remove nothing

A wildcard delete on an empty tree reported (and passed to the callbacks) a
nil leaf, and a wildcard with further elements removed a leaf above them,
which no query for the same path reports.
---
 ctree/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..69eb456 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -386,7 +386,14 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 				}
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
+		case nil:
+			// The zero value of Tree holds no leaf.
+			return false, nil
 		default:
+			if len(subpath) != 0 {
+				// The path continues below this leaf.
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
-- 
2.43.0


From d760b2ff0c86cfe4ace771d80d86f1a7f9433c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 19/24] fix: tree deletes must lock the nodes they inspect and
 prune

The root write lock does not exclude users of a leaf handle or of a node
returned by Get, which lock only that node: Leaf.Update raced with a delete.
---
 ctree/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 69eb456..c8559ec 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -374,7 +374,10 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
+				// Leaf handles and nodes returned by Get are accessed under their own lock.
+				v.mu.Lock()
 				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				v.mu.Unlock()
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -409,7 +412,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
+			br.mu.Lock()
 			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			br.mu.Unlock()
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
-- 
2.43.0


From b4875b1c63e1b93666097e1473c4b68c3c2d9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 20/24] fix: tree queries must report each leaf with a path of
 its own

Sibling leaves shared the backing array of their path, so a path kept by the
visitor changed under it; Walk already copies.
---
 ctree/tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index c8559ec..b787925 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -242,7 +242,7 @@ func (t *Tree) enumerateChildren(prefix, path []string, f VisitFunc) error {
 		switch b := t.leafBranch.(type) {
 		case branch:
 			for k, br := range b {
-				if err := br.queryInternal(append(prefix, k), nil, f); err != nil {
+				if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f); err != nil {
 					return err
 				}
 			}
@@ -254,7 +254,7 @@ func (t *Tree) enumerateChildren(prefix, path []string, f VisitFunc) error {
 	}
 	if b, ok := t.leafBranch.(branch); ok {
 		for k, br := range b {
-			if err := br.queryInternal(append(prefix, k), path[1:], f); err != nil {
+			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {
 				return err
 			}
 		}
@@ -278,7 +278,7 @@ func (t *Tree) queryInternal(prefix, path []string, f VisitFunc) error {
 	}
 	if b, ok := t.leafBranch.(branch); ok {
 		if br := b[path[0]]; br != nil {
-			return br.queryInternal(append(prefix, path[0]), path[1:], f)
+			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)
 		}
 	}
 	return nil
-- 
2.43.0


From af4944681340702884fa97d84bb54100fbd59e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 21/24] fix: queue insertions racing with Close must be refused
 or delivered

---
 coalesce/coalesce.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/coalesce/coalesce.go b/coalesce/coalesce.go
index 2d8e302..c19a05a 100644
--- a/coalesce/coalesce.go
+++ b/coalesce/coalesce.go
@@ -63,13 +63,7 @@ func IsClosedQueue(err error) bool {
 // Insert adds i to the queue and returns true if i does not already exist.
 // Insert returns an error if the Queue has been closed.
 func (q *Queue) Insert(i interface{}) (bool, error) {
-	select {
-	case <-q.closed:
-		return false, errClosedQueue
-	default:
-	}
-
-	ok := q.insert(i)
+	ok, err := q.insert(i)
 
 	if ok {
 		select {
@@ -78,20 +72,28 @@ func (q *Queue) Insert(i interface{}) (bool, error) {
 		}
 	}
 
-	return ok, nil
+	return ok, err
 }
 
-func (q *Queue) insert(i interface{}) bool {
+func (q *Queue) insert(i interface{}) (bool, error) {
 	defer q.Unlock()
 	q.Lock()
 
+	// The closed check must be atomic with the insertion. Otherwise, an insertion
+	// could succeed after the consumer was told that the queue is closed.
+	select {
+	case <-q.closed:
+		return false, errClosedQueue
+	default:
+	}
+
 	if _, ok := q.coalesced[i]; ok {
 		q.coalesced[i]++
-		return false
+		return false, nil
 	}
 	q.queue = append(q.queue, i)
 	q.coalesced[i] = 0
-	return true
+	return true, nil
 }
 
 // Next returns the next item in the queue and the number of duplicates that
-- 
2.43.0


From a67fae2704b33558fb47f37354fcaaf9701cf9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 22/24] fix: value conversion and comparison must be total over
 nil values

---
 value/value.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From 1b3e53ed053cda0ccf74a9dc0ed05928397461b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 23/24] fix: gnmi_cli must not crash displaying a leaf at the
 root path

---
 cli/cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..6923a0f 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,16 +404,20 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// A root leaf has no path element to be displayed under.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
 	}
 
-	mm, ok := m[path[0]]
+	mm, ok := m[path[0]].(pathmap)
 	if !ok {
 		mm = make(pathmap)
 	}
-	mm.(pathmap).add(path[1:], v)
+	mm.add(path[1:], v)
 	m[path[0]] = mm
 }
 
-- 
2.43.0


From 2f34db149f66247b7d17f776c3989ead68049c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:14 +0000
Subject: [PATCH 24/24] fix: target.Config must own the configuration it diffs
 against

A caller that edits and reloads its own message was diffed against itself, so
its changes were never announced.
---
 target/target.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/target/target.go b/target/target.go
index 08fa875..7ca6c7a 100644
--- a/target/target.go
+++ b/target/target.go
@@ -69,6 +69,10 @@ func NewConfigWithBase(h Handler, config *pb.Configuration) (*Config, error) {
 			return nil, fmt.Errorf("invalid configuration: %v", err)
 		}
 	}
+	if config != nil {
+		// Later changes to the caller's message must not look like loaded state.
+		config = proto.Clone(config).(*pb.Configuration)
+	}
 	return &Config{
 		configuration: config,
 		h:             h,
@@ -100,7 +104,8 @@ func (c *Config) Load(config *pb.Configuration) error {
 	}
 	// Diff before setting new state.
 	c.handleDiffs(config)
-	c.configuration = config
+	// Later changes to the caller's message must not look like loaded state.
+	c.configuration = proto.Clone(config).(*pb.Configuration)
 
 	return nil
 }
-- 
2.43.0

