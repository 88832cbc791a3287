# Mutants of the subscription trie and its callers for C06.
M = []
F = 'match/match.go'
S = 'subscribe/subscribe.go'
def b(name, *edits): M.append((name, 'C06', 'bug', list(edits)))
def k(name, *edits): M.append((name, 'C06', 'ok', list(edits)))
UPD = '''	for client := range b.clients {
		if updated == nil {
			client.Update(n)
			continue
		}
		if _, ok := updated[client]; !ok {
			client.Update(n)
			updated[client] = struct{}{}
		}
	}
'''
END = '''	if len(path) == 0 {
		for _, c := range b.children {
			c.update(n, nil, updated)
		}
		return
	}
'''
GL = '''	if path[0] == Glob {
		for _, c := range b.children {
			c.update(n, path[1:], updated)
		}
	} else {
'''
GC = '''		if sb, ok := b.children[Glob]; ok {
			sb.update(n, path[1:], updated)
		}
'''
EX = '''		if sb, ok := b.children[path[0]]; ok {
			sb.update(n, path[1:], updated)
		}
'''
b('no-glob-path', (F, 'if path[0] == Glob {', 'if false {'))
b('no-glob-child', (F, GC, ''))
b('no-explicit', (F, EX, ''))
b('glob-only-if-no-explicit', (F, GC, ''), (F, EX, EX.rstrip() + ' else if sb, ok := b.children[Glob]; ok {\n\t\t\tsb.update(n, path[1:], updated)\n\t\t}\n'))
b('explicit-only-if-no-glob', (F, GC, GC.rstrip() + ' else\n'))
b('no-implicit', (F, END, '\tif len(path) == 0 {\n\t\treturn\n\t}\n'))
b('implicit-one', (F, 'c.update(n, nil, updated)\n', 'c.update(n, nil, updated)\n\t\t\tbreak\n'))
b('glob-one', (F, GL, GL.replace('updated)\n', 'updated)\n\t\t\tbreak\n', 1)))
b('glob-skip-glob', (F, GL, GL.replace('for _, c := range b.children {\n', 'for k, c := range b.children {\n\t\t\tif k == Glob {\n\t\t\t\tcontinue\n\t\t\t}\n')))
b('glob-deep', (F, GL, GL.replace('path[1:]', 'nil')))
b('glob-whole', (F, GL, GL.replace('path[1:]', 'path')))
b('explicit-whole', (F, EX, EX.replace('path[1:]', 'path')))
b('explicit-skip2', (F, EX, EX.replace('path[1:]', 'path[2:]')))
b('glob-child-nil', (F, GC, GC.replace('path[1:]', 'nil')))
b('prefix-only', (F, '	for client := range b.clients {\n', '	if len(path) > 0 {\n\t\tfor client := range b.clients {\n\t\t\tclient.Update(n)\n\t\t}\n\t}\n\tfor client := range b.clients {\n'))
b('leaf-only', (F, '	for client := range b.clients {\n', '	for client := range b.clients {\n\t\tif len(path) != 0 {\n\t\t\tbreak\n\t\t}\n'))
b('leaf-only-2', (F, '	for client := range b.clients {\n', '	for client := range b.clients {\n\t\tif len(b.children) > 0 && len(path) > 0 {\n\t\t\tcontinue\n\t\t}\n'))
b('no-mark', (F, '			updated[client] = struct{}{}\n', ''))
b('no-check', (F, 'if _, ok := updated[client]; !ok {', 'if true {'))
b('mark-first', (F, '		if _, ok := updated[client]; !ok {\n', '		_, ok := updated[client]\n\t\tupdated[client] = struct{}{}\n\t\tif ok || len(path) > 3 {\n\t\t\tcontinue\n\t\t}\n\t\tif true {\n'))
b('stop-at-seen', (F, '		if _, ok := updated[client]; !ok {\n', '		if _, ok := updated[client]; ok {\n\t\t\tbreak\n\t\t} else {\n'))
b('return-at-seen', (F, '		if _, ok := updated[client]; !ok {\n', '		if _, ok := updated[client]; ok {\n\t\t\treturn\n\t\t} else {\n'))
b('drop-updated', (F, EX, EX.replace('updated', 'nil')))
b('drop-updated-implicit', (F, 'c.update(n, nil, updated)', 'c.update(n, nil, nil)'))
b('fresh-updated', (F, GL, GL.replace('path[1:], updated', 'path[1:], map[Client]struct{}{}')))
b('once-nil', (F, 'm.tree.update(n, p, updated)', 'm.tree.update(n, p, nil)'))
b('early-clients', (F, '	// Terminate recursion.\n', '	if len(b.clients) > 0 {\n\t\treturn\n\t}\n'))
b('unlocked-update', (F, '	defer m.mu.RUnlock()\n	m.mu.RLock()\n	m.tree.update(n, p, updated)', '	m.mu.RLock()\n	t := m.tree\n\tm.mu.RUnlock()\n\tt.update(n, p, updated)'))
b('async-update', (F, '			client.Update(n)\n			updated', '			go client.Update(n)\n			updated'))
b('wrong-item', (F, '			client.Update(n)\n			updated', '			client.Update(path)\n			updated'))
b('glob-const', (F, 'const Glob = "*"', 'const Glob = "..."'))
b('add-caller-slice', (F, '	query = append([]string(nil), query...)\n', ''))
b('add-share-slice', (F, 'append([]string(nil), query...)', 'append(query[:0], query...)'))
b('add-unlocked', (F, '	defer m.mu.Unlock()\n	m.mu.Lock()\n	m.tree.addQuery', '	m.tree.addQuery'))
b('add-rlock', (F, '	defer m.mu.Unlock()\n	m.mu.Lock()\n	m.tree.addQuery', '	defer m.mu.RUnlock()\n	m.mu.RLock()\n	m.tree.addQuery'))
b('add-new-clients', (F, '		if b.clients == nil {\n			b.clients', '		if len(b.clients) < 2 {\n			b.clients'))
b('add-new-children', (F, '	if b.children == nil {\n', '	if len(b.children) == 0 || len(query) == 1 {\n'))
b('add-new-child', (F, '	if !ok {\n		sb = &branch{}', '	if !ok || len(sb.clients) == 0 {\n		sb = &branch{}'))
b('add-not-linked', (F, '		b.children[query[0]] = sb\n', '		if len(query) > 1 {\n\t\t\tb.children[query[0]] = sb\n\t\t}\n'))
b('add-wrong-key', (F, '		b.children[query[0]] = sb\n', '		b.children[query[len(query)-1]] = sb\n'))
b('add-glob-end', (F, '	if len(query) == 0 {\n		if b.clients', '	if len(query) == 0 || len(query) == 1 && query[0] == Glob {\n		if b.clients'))
b('add-skip', (F, 'sb.addQuery(query[1:], client)', 'sb.addQuery(query[:len(query)-1], client)'))
b('rm-unlocked', (F, '		defer m.mu.Unlock()\n		m.mu.Lock()\n', ''))
b('rm-rlock', (F, '		defer m.mu.Unlock()\n		m.mu.Lock()\n', '		defer m.mu.RUnlock()\n		m.mu.RLock()\n'))
b('rm-all', (F, 'delete(b.clients, client)', 'b.clients = nil'))
b('rm-clear', (F, 'delete(b.clients, client)', 'clear(b.clients)'))
b('rm-none', (F, '		if b.clients != nil {\n			delete(b.clients, client)\n		}\n', ''))
b('rm-one-client', (F, '		if b.clients != nil {\n', '		if len(b.clients) > 1 {\n'))
b('rm-prune-always', (F, '	if sb.removeQuery(query[1:], client) {\n		delete', '	sb.removeQuery(query[1:], client)\n	{\n		delete'))
b('rm-prune-clients', (F, 'empty = (len(b.clients) == 0 && len(b.children) == 0)', 'empty = len(b.clients) == 0'))
b('rm-prune-children', (F, 'empty = (len(b.clients) == 0 && len(b.children) == 0)', 'empty = len(b.children) == 0'))
b('rm-prune-or', (F, 'empty = (len(b.clients) == 0 && len(b.children) == 0)', 'empty = (len(b.clients) == 0 || len(b.children) == 0)'))
b('rm-prune-inverted', (F, '	if sb.removeQuery(query[1:], client) {\n', '	if !sb.removeQuery(query[1:], client) {\n'))
b('rm-not-descend', (F, '	sb, ok := b.children[query[0]]\n	if !ok {\n		return\n	}\n	if sb.rem', '	sb, ok := b.children[query[0]]\n	if !ok || len(sb.clients) == 0 {\n		return\n	}\n	if sb.rem'))
b('rm-drop-glob', (F, '		delete(b.children, query[0])\n', '		delete(b.children, query[0])\n\t\tdelete(b.children, Glob)\n'))
b('rm-end-key', (F, '			delete(b.clients, client)\n', '			for c := range b.clients {\n\t\t\t\tdelete(b.clients, c)\n\t\t\t\tbreak\n\t\t\t}\n'))
b('sn-per-update', (S, '	for _, u := range n.Update {\n		m.UpdateOnce', '	for _, u := range n.Update {\n		updated := map[match.Client]struct{}{}\n		m.UpdateOnce'))
b('sn-two-sets', (S, '	for _, d := range n.Delete {\n		m.UpdateOnce', '	updated = make(map[match.Client]struct{})\n	for _, d := range n.Delete {\n		m.UpdateOnce'))
b('sn-nil', (S, 'updated := make(map[match.Client]struct{})', 'var updated map[match.Client]struct{}'))
b('sn-single', (S, '	updated := make(map[match.Client]struct{})\n', '	var updated map[match.Client]struct{}\n\tif len(n.Update)+len(n.Delete) > 1 {\n\t\tupdated = make(map[match.Client]struct{})\n\t}\n'))
b('sn-update', (S, 'm.UpdateOnce(v, append(prefix, path.ToStrings(d, false)...), updated)', 'm.Update(v, append(prefix, path.ToStrings(d, false)...))'))
b('sn-no-deletes', (S, '	for _, d := range n.Delete {\n		m.UpdateOnce', '	for _, d := range n.Delete {\n		if len(n.Update) > 0 {\n\t\t\tbreak\n\t\t}\n		m.UpdateOnce'))
b('sn-first-update', (S, 'path.ToStrings(u.Path, false)...), updated)\n', 'path.ToStrings(u.Path, false)...), updated)\n\t\tif len(prefix) > 1 {\n\t\t\tbreak\n\t\t}\n'))
b('sn-atomic-prefix', (S, '	for _, u := range n.Update {\n		m.UpdateOnce', '	if n.Atomic {\n\t\tm.UpdateOnce(v, prefix, updated)\n\t\treturn\n\t}\n	for _, u := range n.Update {\n		m.UpdateOnce'))
b('sn-no-target', (S, 'path.ToStrings(v.Prefix, true))', 'path.ToStrings(v.Prefix, false))'))
b('sn-noti-not-leaf', (S, 'UpdateNotification(s.m, n, v,', 'UpdateNotification(s.m, v, v,'))
b('sn-go', (S, '		UpdateNotification(s.m, n, v,', '		go UpdateNotification(s.m, n, v,'))
b('sub-no-remove', (S, '		defer remove()\n', '		_ = remove\n'))
b('sub-remove-first', (S, '		for _, remove := range removes {\n			remove()\n		}\n', '		removes[0]()\n'))
b('sub-remove-early', (S, '		defer remove()\n', '		if c.target == "*" {\n\t\t\tdefer remove()\n\t\t}\n'))
b('sub-no-origin', (S, 'if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {', 'if origin := p.GetOrigin(); false && origin != "" {'))
b('sub-target-path', (S, 'path.ToStrings(p, false)...)\n		removes', 'path.ToStrings(p, true)...)\n		removes'))
b('feed-filter', (S, 'func (c matchClient) Update(n interface{}) {\n', 'func (c matchClient) Update(n interface{}) {\n\tif n == nil {\n\t\treturn\n\t}\n'))

k('ok-range-test', (F, END + '''	// This captures only target delete gnmi.Notification as it is going
	// to have Glob in the path elem in addition to device name.
	// For target delete client.Notification, device name is sufficient,
	// so it will not satisfy this case.
''' + GL, '''	if len(path) == 0 || path[0] == Glob {
		rest := path
		if len(path) > 0 {
			rest = path[1:]
		}
		for _, c := range b.children {
			c.update(n, rest, updated)
		}
	} else {
'''))
k('ok-all-range', (F, END, ''), (F, '''	// This captures only target delete gnmi.Notification as it is going
	// to have Glob in the path elem in addition to device name.
	// For target delete client.Notification, device name is sufficient,
	// so it will not satisfy this case.
''' + GL, '''	for name, c := range b.children {
		if len(path) == 0 {
			c.update(n, nil, updated)
			continue
		}
		if path[0] == Glob || name == Glob || name == path[0] {
			c.update(n, path[1:], updated)
		}
	}
}

func (b *branch) other(n interface{}, path []string, updated map[Client]struct{}) {
	{
'''))
k('ok-clients-helper', (F, UPD, '\tb.notify(n, updated)\n'), (F, 'func (b *branch) update(', 'func (b *branch) notify(n interface{}, updated map[Client]struct{}) {\n' + UPD + '}\n\nfunc (b *branch) update('))
k('ok-children-first', (F, '	// Update all clients at this level.\n' + UPD, '	defer b.notify(n, updated)\n'), (F, 'func (b *branch) update(', 'func (b *branch) notify(n interface{}, updated map[Client]struct{}) {\n' + UPD + '}\n\nfunc (b *branch) update('))
k('ok-mark-before', (F, '			client.Update(n)\n			updated[client] = struct{}{}\n', '			updated[client] = struct{}{}\n			client.Update(n)\n'))
k('ok-loop-cond', (F, UPD, '''	for client := range b.clients {
		if updated != nil {
			if _, ok := updated[client]; ok {
				continue
			}
			updated[client] = struct{}{}
		}
		client.Update(n)
	}
'''))
k('ok-no-len-check', (F, '	if len(b.children) == 0 {\n		return\n	}\n', ''))
k('ok-swap', (F, GC, ''), (F, EX, EX + GC))
k('ok-update-once', (F, '	m.tree.update(n, p, nil)\n', '	m.UpdateOnce(n, p, nil)\n'), (F, '	defer m.mu.RUnlock()\n	m.mu.RLock()\n	m.UpdateOnce', '	m.UpdateOnce'))
k('ok-exp-unlock', (F, '	defer m.mu.RUnlock()\n	m.mu.RLock()\n	m.tree.update(n, p, updated)\n', '	m.mu.RLock()\n	m.tree.update(n, p, updated)\n	m.mu.RUnlock()\n'))
k('ok-add-link-late', (F, '		sb = &branch{}\n		b.children[query[0]] = sb\n	}\n	sb.addQuery(query[1:], client)\n', '		sb = &branch{}\n	}\n	sb.addQuery(query[1:], client)\n	b.children[query[0]] = sb\n'))
k('ok-add-child-helper', (F, '''	if b.children == nil {
		b.children = map[string]*branch{}
	}
	sb, ok := b.children[query[0]]
	if !ok {
		sb = &branch{}
		b.children[query[0]] = sb
	}
	sb.addQuery''', '	b.child(query[0]).addQuery'), (F, 'func (b *branch) removeQuery', '''func (b *branch) child(name string) *branch {
	if sb := b.children[name]; sb != nil {
		return sb
	}
	if b.children == nil {
		b.children = make(map[string]*branch)
	}
	sb := &branch{}
	b.children[name] = sb
	return sb
}

func (b *branch) removeQuery'''))
k('ok-copy', (F, '	query = append([]string(nil), query...)\n', '	q := make([]string, len(query))\n	copy(q, query)\n	query = q\n'))
k('ok-copy2', (F, '	query = append([]string(nil), query...)\n', '	query = append([]string{}, query...)\n'))
k('ok-rm-plain', (F, '''	defer func() {
		empty = (len(b.clients) == 0 && len(b.children) == 0)
	}()
	if len(query) == 0 {
		if b.clients != nil {
			delete(b.clients, client)
		}
		return
	}
	sb, ok := b.children[query[0]]
	if !ok {
		return
	}
	if sb.removeQuery(query[1:], client) {
		delete(b.children, query[0])
	}
	return
''', '''	if len(query) == 0 {
		delete(b.clients, client)
	} else if sb, ok := b.children[query[0]]; ok && sb.removeQuery(query[1:], client) {
		delete(b.children, query[0])
	}
	return len(b.clients) == 0 && len(b.children) == 0
'''))
k('ok-rm-inverted', (F, 'empty = (len(b.clients) == 0 && len(b.children) == 0)', 'empty = (len(b.clients) != 0 || len(b.children) != 0)'), (F, 'if sb.removeQuery(query[1:], client) {', 'if !sb.removeQuery(query[1:], client) {'))
k('ok-rm-noprune', (F, '	if sb.removeQuery(query[1:], client) {\n		delete(b.children, query[0])\n	}\n', '	sb.removeQuery(query[1:], client)\n'))
k('ok-rm-lens', (F, '	if sb.removeQuery(query[1:], client) {\n', '	sb.removeQuery(query[1:], client)\n	if len(sb.clients)+len(sb.children) == 0 {\n'))
k('ok-sn-helper', (S, 'UpdateNotification(s.m, n, v, path.ToStrings(v.Prefix, true))', 's.notify(n, v)'), (S, '// Update passes a', '''func (s *Server) notify(n *ctree.Leaf, v *pb.Notification) {
	UpdateNotification(s.m, n, v, path.ToStrings(v.GetPrefix(), true))
}

// Update passes a'''))
k('ok-sn-copy', (S, '	for _, u := range n.Update {\n		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)\n', '	for i := range n.GetUpdate() {\n		p := append([]string{}, prefix...)\n		p = append(p, path.ToStrings(n.Update[i].GetPath(), false)...)\n		m.UpdateOnce(v, p, updated)\n'))
k('ok-sn-one-loop', (S, '''	for _, u := range n.Update {
		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
	}
	for _, d := range n.Delete {
		m.UpdateOnce(v, append(prefix, path.ToStrings(d, false)...), updated)
	}
''', '''	once := func(p *pb.Path) {
		m.UpdateOnce(v, append(prefix, path.ToStrings(p, false)...), updated)
	}
	for _, d := range n.Delete {
		once(d)
	}
	for _, u := range n.Update {
		once(u.Path)
	}
'''))
k('ok-sub-remove-rev', (S, '		for _, remove := range removes {\n			remove()\n		}\n', '		for i := len(removes) - 1; i >= 0; i-- {\n			removes[i]()\n		}\n'))
k('ok-sub-remove-func', (S, '		defer remove()\n', '		defer func() { remove() }()\n'))
