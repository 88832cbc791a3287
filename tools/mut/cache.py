F='cache/cache.go'
M=[
# --- C02
('ts-le','C02','bug',[(F,'case n.GetTimestamp() < old.GetTimestamp():','case n.GetTimestamp() < old.GetTimestamp()-1:')]),
('ts-stale-skew','C02','bug',[(F,'case n.GetTimestamp() < old.GetTimestamp():','case n.GetTimestamp() <= old.GetTimestamp() && n.GetAtomic() || n.GetTimestamp() < old.GetTimestamp():')]),
('ts-equal-reject','C02','bug',[(F,'if !proto.Equal(old, n) {','if len(old.Update) == len(n.Update) && value.Equal(old.Update[0].Val, n.Update[0].Val) == false {')]),
('ts-future-and','C02','bug',[(F,'} else if nts.Sub(latest) <= t.futureThreshold {','} else if nts.Sub(latest) <= 2*t.futureThreshold {')]),
('ts-del-le','C02','bug',[(F,'return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp()','return v.(*pb.Notification).GetTimestamp() <= n.GetTimestamp()')]),
('ts-del-atomic','C02','bug',[(F,'return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp()','return v.(*pb.Notification).GetAtomic() || v.(*pb.Notification).GetTimestamp() < n.GetTimestamp()')]),
('ts-meta-early','C02','bug',[(F,'accepted = func() { t.meta.SetBool(metadata.Connected, tv.BoolVal) }','t.meta.SetBool(metadata.Connected, tv.BoolVal)')]),
('ts-latest-early','C02','bug',[(F,'	// Update an existing leaf.\n','	if realData {\n		t.checkTimestamp(T(n.GetTimestamp()))\n	}\n	// Update an existing leaf.\n')]),
('ts-latest-after-suppress','C02','bug',[(F,'''		accepted()
		if realData {
			// Record latest timestamp from the device, excluding all 'meta' paths.
			t.checkTimestamp(T(n.GetTimestamp()))
		}
''','''		accepted()
'''),(F,'''		// Compute latency for updated leaves.
''','''		if realData {
			t.checkTimestamp(T(n.GetTimestamp()))
		}
		// Compute latency for updated leaves.
''')]),
('ts-errs-lost','C02','bug',[(F,'		return errs.Err()\n','		_ = errs\n		return nil\n')]),
('ts-swap-err','C02','bug',[(F,'				return nil, ErrFuture','				return nil, ErrStale')]),
('ts-add-no-lookup','C02','bug',[(F,'if oldval := t.t.GetLeaf(path); oldval != nil {','if oldval := t.t.GetLeaf(path); oldval != nil && !(n.Atomic && len(n.Update) > 1) {')]),
('ts-update-before-check','C02','bug',[(F,'''		switch nts := T(n.GetTimestamp()); {
		case n.GetTimestamp() <''','''		if n.Atomic && old.Atomic {
			oldval.Update(n)
		}
		switch nts := T(n.GetTimestamp()); {
		case n.GetTimestamp() <''')]),
('ts-delete-before-update','C03','bug',[(F,'''		errs := &errlist.List{}
		for _, u''','''		errs := &errlist.List{}
		for _, d := range deletes {
			noti := proto.Clone(n).(*pb.Notification)
			noti.Delete = []*pb.Path{d}
			t.meta.AddInt(metadata.UpdateCount, 1)
			for _, nd := range t.gnmiRemove(noti) {
				t.client(nd)
			}
		}
		deletes, dels := nil, deletes
		_ = dels
		for _, u''')]),
# --- C03
('feed-detached','C03','bug',[(F,'		return oldval, nil\n','		return ctree.DetachedLeaf(n), nil\n')]),
('feed-suppress-atomic','C03','bug',[(F,'if !n.Atomic && !old.Atomic && value.Equal','if !n.Atomic && value.Equal')]),
('feed-suppress-always','C03','bug',[(F,'value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven','value.Equal(old.Update[0].Val, n.Update[0].Val)')]),
('feed-before','C03','bug',[(F,'''		oldval.Update(n)
		accepted()
''','''		if n.Atomic {
			t.client(oldval)
		}
		oldval.Update(n)
		accepted()
''')]),
('feed-no-clone','C03','bug',[(F,'''			noti := proto.Clone(n).(*pb.Notification)
			noti.Update = []*pb.Update{u}
''','''			noti := n
			noti.Update = []*pb.Update{u}
''')]),
('feed-hoist-clone','C03','bug',[(F,'''		for _, u := range updates {
			noti := proto.Clone(n).(*pb.Notification)
''','''		noti := proto.Clone(n).(*pb.Notification)
		for _, u := range updates {
''')]),
('feed-del-ts','C03','bug',[(F,'toDeleteNotification(d, n.GetTimestamp())','toDeleteNotification(d, d.GetTimestamp())')]),
('feed-del-first','C03','bug',[(F,'''	t.meta.AddInt(metadata.LeafCount, -deleted)
''','''	if len(n.Delete) > 0 && len(leaves) > 1 && len(path) > 4 {
		leaves = leaves[:1]
	}
	t.meta.AddInt(metadata.LeafCount, -deleted)
''')]),
('feed-del-prefix','C03','bug',[(F,'d.Delete = []*pb.Path{{Elem: append(append([]*pb.PathElem{}, pathElems(prefix)...), pathElems(path)...)}}','d.Delete = []*pb.Path{{Elem: append([]*pb.PathElem{}, pathElems(path)...)}}')]),
('feed-del-alias','C03','bug',[(F,'append(append([]*pb.PathElem{}, pathElems(prefix)...), pathElems(path)...)','append(pathElems(prefix), pathElems(path)...)')]),
('feed-del-atomic','C03','bug',[(F,'''	case n.GetAtomic():
		d.Delete''','''	case n.GetAtomic() && len(prefix.GetElem()) > 0:
		d.Delete''')]),
('feed-restore','C03','bug',[(F,'''			n.Update = updates
			n.Delete = deletes
''','''			n.Update = updates
''')]),
('feed-go','C03','bug',[(F,'''				t.meta.AddInt(metadata.UpdateCount, 1)
				t.client(nd)
			}
		}

''','''				t.meta.AddInt(metadata.UpdateCount, 1)
				go t.client(nd)
			}
		}

''')]),
('feed-abort','C03','bug',[(F,'''				errs.Add(err)
				continue
''','''				errs.Add(err)
				break
''')]),
('feed-atomic-client','C03','bug',[(F,'''			t.meta.AddInt(metadata.UpdateCount, int64(l))
			t.client(nd)
''','''			t.meta.AddInt(metadata.UpdateCount, int64(l))
			if l > 1 {
				t.client(nd)
			}
''')]),
('feed-single-del-skip','C03','bug',[(F,'''	case len(n.GetUpdate())+len(n.GetDelete()) > 1:''','''	case len(n.GetUpdate()) > 1:''')]),
('feed-deadlock','C03','bug',[(F,'''		nd, err := t.gnmiUpdate(n)
		if err != nil {
			return err
		}
		if nd != nil {
			t.meta.AddInt(metadata.UpdateCount, 1)
			t.client(nd)
		}
''','''		nd, err := t.gnmiUpdate(n)
		if err != nil {
			return err
		}
		t.tsmu.Lock()
		defer t.tsmu.Unlock()
		if nd != nil {
			t.meta.AddInt(metadata.UpdateCount, 1)
			t.client(nd)
		}
''')]),
# --- C15
('cnt-stale-eq','C15','bug',[(F,'''			} else {
				t.meta.AddInt(metadata.StaleCount, 1)
				return nil, ErrStale''','''			} else {
				return nil, ErrStale''')]),
('cnt-supp-update','C15','bug',[(F,'			t.meta.AddInt(metadata.SuppressedCount, 1)\n','			t.meta.AddInt(metadata.SuppressedCount, 1)\n			t.meta.AddInt(metadata.UpdateCount, 1)\n')]),
('cnt-atomic1','C15','bug',[(F,'t.meta.AddInt(metadata.UpdateCount, int64(l))','t.meta.AddInt(metadata.UpdateCount, 1)')]),
('cnt-meta-leaf','C15','bug',[(F,'''		if isRealData(d) {
			deleted++
		}''','''		deleted++''')]),
('cnt-leaf-early','C15','bug',[(F,'''	// Add a new leaf.
''','''	if realData {
		t.meta.AddInt(metadata.LeafCount, 1)
	}
	// Add a new leaf.
'''),(F,'''		t.checkTimestamp(T(n.GetTimestamp()))
		t.meta.AddInt(metadata.LeafCount, 1)
''','''		t.checkTimestamp(T(n.GetTimestamp()))
''')]),
('cnt-lat-meta','C15','bug',[(F,'		if realData && t.synced() {','		if t.synced() {')]),
('cnt-lock','C15','bug',[(F,'''	defer t.tsmu.Unlock()
	t.tsmu.Lock()
	return t.sync''','''	return t.sync''')]),
('cnt-empty','C15','bug',[(F,'''		if l == 0 {
			t.meta.AddInt(metadata.EmptyCount, 1)
			return nil''','''		if l == 0 {
			return nil''')]),
# --- C14
('own-target','C14','bug',[(F,'''	return target.GnmiUpdate(n)''','''	if n.GetPrefix().GetOrigin() == "meta" {
		for _, target = range c.targets {
		}
	}
	return target.GnmiUpdate(n)''')]),
# --- benign
('ok-ifchain','C02,C03,C15','ok',[(F,'''		case n.GetTimestamp() < old.GetTimestamp():
			// Update rejected. Timestamp < previous recorded timestamp.
			t.meta.AddInt(metadata.StaleCount, 1)
			return nil, ErrStale
		case n.GetTimestamp() == old.GetTimestamp():
			if !proto.Equal(old, n) {
				if log.V(1) {
					log.Warningf("received different value at same timestamp\\nfirst: %s\\nsecond: %s", prototext.Format(old), prototext.Format(n))
				}
				// Allow to continue to update the cache taking the last supplied value for this timestamp.
			} else {
				t.meta.AddInt(metadata.StaleCount, 1)
				return nil, ErrStale
			}
''','''		case old.GetTimestamp() > n.GetTimestamp(), n.GetTimestamp() == old.GetTimestamp() && proto.Equal(n, old):
			t.meta.AddInt(metadata.StaleCount, 1)
			return nil, ErrStale
		case old.Timestamp == n.Timestamp:
			log.V(1).Info("different")
''')]),
('ok-helper','C02,C03,C15','ok',[(F,'''		// Simulate event-driven for all non-atomic updates.
		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
			t.meta''','''		if t.unchanged(old, n) {
			t.meta'''),(F,'func pathElems(','''func (t *Target) unchanged(a, b *pb.Notification) bool {
	if a.GetAtomic() || b.GetAtomic() || !t.eventDriven {
		return false
	}
	return value.Equal(b.GetUpdate()[0].GetVal(), a.GetUpdate()[0].GetVal())
}

func pathElems(''')]),
('ok-loopidx','C02,C03,C15','ok',[(F,'''		for _, u := range updates {
			noti''','''		for i := 0; i < len(updates); i++ {
			u := updates[i]
			noti''')]),
('ok-apply','C02,C03,C15','ok',[(F,'''			nd, err := t.gnmiUpdate(noti)
			if err != nil {
				errs.Add(err)
				continue
			}
			if nd != nil {
				t.meta.AddInt(metadata.UpdateCount, 1)
				t.client(nd)
			}
''','''			errs.Add(t.apply(noti, 1))
'''),(F,'''		nd, err := t.gnmiUpdate(n)
		if err != nil {
			return err
		}
		if nd != nil {
			t.meta.AddInt(metadata.UpdateCount, int64(l))
			t.client(nd)
		}
''','''		return t.apply(n, l)
'''),(F,'''		nd, err := t.gnmiUpdate(n)
		if err != nil {
			return err
		}
		if nd != nil {
			t.meta.AddInt(metadata.UpdateCount, 1)
			t.client(nd)
		}
''','''		return t.apply(n, 1)
'''),(F,'func pathElems(','''func (t *Target) apply(n *pb.Notification, count int) error {
	nd, err := t.gnmiUpdate(n)
	if err != nil || nd == nil {
		return err
	}
	t.client(nd)
	t.meta.AddInt(metadata.UpdateCount, int64(count))
	return nil
}

func pathElems(''')]),
('ok-delhelper','C02,C03,C15','ok',[(F,'''			noti := proto.Clone(n).(*pb.Notification)
			noti.Delete = []*pb.Path{d}
			t.meta.AddInt(metadata.UpdateCount, 1)
			for _, nd := range t.gnmiRemove(noti) {
				t.client(nd)
			}
''','''			noti := &pb.Notification{Timestamp: n.GetTimestamp(), Prefix: n.GetPrefix(), Delete: []*pb.Path{d}}
			t.remove(noti)
'''),(F,'''		t.meta.AddInt(metadata.UpdateCount, 1)
		for _, nd := range t.gnmiRemove(n) {
			t.client(nd)
		}

	// Empty''','''		t.remove(n)

	// Empty'''),(F,'func pathElems(','''func (t *Target) remove(n *pb.Notification) {
	t.meta.AddInt(metadata.UpdateCount, 1)
	nds := t.gnmiRemove(n)
	for i := range nds {
		t.client(nds[i])
	}
}

func pathElems(''')]),
('ok-future-helper','C02,C15','ok',[(F,'''		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
			latest := t.latestTimestamp()
			if latest.UnixNano() <= 0 {
				// This is the first accepted update as t.ts is uninitialized (assuming
				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
			} else if nts.Sub(latest) <= t.futureThreshold {
				if log.V(1) {
					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
				}
			} else {
				t.meta.AddInt(metadata.FutureCount, 1)
				return nil, ErrFuture
			}
''','''		case t.tooFar(nts):
			t.meta.AddInt(metadata.FutureCount, 1)
			return nil, ErrFuture
'''),(F,'func pathElems(','''func (t *Target) tooFar(ts time.Time) bool {
	thr := t.futureThreshold
	if thr <= 0 {
		return false
	}
	if d := ts.Sub(Now()); d <= thr {
		return false
	}
	latest := t.latestTimestamp()
	return latest.UnixNano() > 0 && ts.Sub(latest) > thr
}

func pathElems(''')]),
('ok-noop','C02,C03,C15','ok',[(F,'	realData := true\n','	realData := true\n	if x := len(n.GetUpdate()); x < 0 {\n		_ = x\n	}\n')]),
('ok-retnode','C02,C03,C15','ok',[(F,'''	return t.t.GetLeaf(path), nil
}''','''	leaf := t.t.GetLeaf(path)
	return leaf, nil
}'''),(F,'''		t.meta.AddInt(metadata.LeafCount, 1)
		t.meta.AddInt(metadata.AddCount, 1)
''','''		for _, c := range []string{metadata.LeafCount, metadata.AddCount} {
			t.meta.AddInt(c, 1)
		}
''')]),
]
