F = 'ctree/tree.go'
M = []
def b(n, *e, p='C09'): M.append((n, p, 'bug', list(e)))
def k(n, *e, p='C09,C10'):
    for q in p.split(','):
        M.append((n + ('' if q == 'C09' else '-lock'), q, 'ok', list(e)))
def l(n, *e): b(n, *e, p='C10')

# ---- Query
k('q-glob-leaf', (F, 'if n := len(path); n == 0 || (n == 1 && path[0] == "*") {', 'if n := len(path); n <= 1 {\n'.rstrip('\n')))
b('q-glob-leaf2', (F, 'if n := len(path); n == 0 || (n == 1 && path[0] == "*") {', 'if n := len(path); n == 0 {'))
b('q-glob-leaf3', (F, 'if n := len(path); n == 0 || (n == 1 && path[0] == "*") {', 'if n := len(path); n == 0 || path[0] == "*" {'))
b('q-rest-nil', (F, '''			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {''', '''			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f); err != nil {'''))
b('q-rest-full', (F, '''			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {''', '''			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path, f); err != nil {'''))
b('q-share', (F, 'append(prefix[:len(prefix):len(prefix)], k), nil, f)', 'append(prefix, k), nil, f)'))
b('q-share2', (F, 'append(prefix[:len(prefix):len(prefix)], path[0])', 'append(prefix, path[0])'))
b('q-star-name', (F, 'append(prefix[:len(prefix):len(prefix)], k), path[1:], f)', 'append(prefix[:len(prefix):len(prefix)], path[0]+k[:0]), path[1:], f)'))
b('q-ignore-err', (F, '''				if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f); err != nil {
					return err
				}''', '''				br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f)'''))
b('q-stop-one', (F, '''			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {
				return err
			}''', '''			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f)'''))
b('q-star-only-if-absent', (F, '	if len(path) == 0 || path[0] == "*" {\n		return t.enumerateChildren', '	if len(path) == 0 || (path[0] == "*" && len(path) > 1) {\n		return t.enumerateChildren'))
b('q-star-literal', (F, '''	if b, ok := t.leafBranch.(branch); ok {
		if br := b[path[0]]; br != nil {
			return br.queryInternal(''', '''	if b, ok := t.leafBranch.(branch); ok {
		if br := b["*"]; br != nil {
			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], "*"), path[1:], f)
		}
		if br := b[path[0]]; br != nil {
			return br.queryInternal('''))
b('q-deep-leaf', (F, '''			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)
		}
	}
	return nil
''', '''			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)
		}
	} else if t.leafBranch != nil && len(path) == 1 {
		return f(prefix, (*Leaf)(t), t.leafBranch)
	}
	return nil
'''))
b('q-nil-leaf', (F, '		case nil: // do nothing\n		default:\n			return f(prefix', '		default:\n			return f(prefix'))
b('q-drop-err', (F, '''		if br := b[path[0]]; br != nil {
			return br.queryInternal(append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)
		}''', '''		if br := b[path[0]]; br != nil {
			br.queryInternal(append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)
		}'''))
# ---- Walk
b('w-share', (F, '''			p := make([]string, l, l+1)
			copy(p, path)
			if err := br.walkInternal(append(p, name), f); err != nil {''', '''			if err := br.walkInternal(append(path[:l], name), f); err != nil {'''))
b('w-share-buf', (F, '''		for name, br := range b {
			p := make([]string, l, l+1)
			copy(p, path)
''', '''		p := make([]string, l, l+1)
		copy(p, path)
		for name, br := range b {
'''))
b('w-root-nil', (F, '''	if len(path) == 0 && t.leafBranch == nil {
		return nil
	}
	return f(path, (*Leaf)(t), t.leafBranch)
}

// Walk calls''', '''	return f(path, (*Leaf)(t), t.leafBranch)
}

// Walk calls'''))
b('w-root-skip', (F, '''	if len(path) == 0 && t.leafBranch == nil {
		return nil
	}
	return f(path, (*Leaf)(t), t.leafBranch)
}

// Walk calls''', '''	if len(path) == 0 {
		return nil
	}
	return f(path, (*Leaf)(t), t.leafBranch)
}

// Walk calls'''))
b('ws-unsorted', (F, '''		sort.Strings(names)
		l := len(path)''', '''		l := len(path)'''))
b('ws-late-sort', (F, '''			names = append(names, name)
		}
		sort.Strings(names)
		l := len(path)
		for _, name := range names {
			p := make([]string, l, l+1)
			copy(p, path)
			if err := b[name].walkInternalSorted(append(p, name), f); err != nil {
				return err
			}
		}
''', '''			names = append(names, name)
		}
		l := len(path)
		for _, name := range names {
			p := make([]string, l, l+1)
			copy(p, path)
			if err := b[name].walkInternalSorted(append(p, name), f); err != nil {
				return err
			}
		}
		sort.Strings(names)
'''))
b('ws-skip-last', (F, '''		for _, name := range names {
			p := make''', '''		for _, name := range names[:len(names)-1] {
			p := make'''))
b('ws-skip-first', (F, '''		for i, name := range names {
'''.replace('i, ', '_, ') + '			p := make', '''		for i, name := range names {
			if i == 1 {
				continue
			}
			p := make'''))
b('ws-skip-empty', (F, '''		for name := range b {
			names = append(names, name)
		}
		sort.Strings(names)
		l :=''', '''		for name := range b {
			if name != "" {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		l :='''))
b('ws-go-unsorted', (F, 'b[name].walkInternalSorted(append(p, name), f)', 'b[name].walkInternal(append(p, name), f)'))
# ---- Add
b('a-replace-branch', (F, '''	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value''', '''	t.leafBranch = value'''))
b('a-store-then-check', (F, '''	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value
	return nil''', '''	old := t.leafBranch
	t.leafBranch = value
	if _, ok := old.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	return nil'''))
b('a-empty-branch', (F, '''	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")''', '''	if b, ok := t.leafBranch.(branch); ok && len(b) != 1 {
		return fmt.Errorf("attempted to add a leaf in place of a branch")'''))
b('a-keep-first', (F, '	t.leafBranch = value\n	return nil', '	if t.leafBranch == nil {\n		t.leafBranch = value\n	}\n	return nil'))
b('a-no-recheck', (F, '''		br := b[path[0]]
		if br == nil {
			br = newBranch(path[1:], value)
			b[path[0]] = br
		}
		return br.Add(path[1:], value)''', '''		b[path[0]] = newBranch(path[1:], value)
		return nil'''))
l('a-no-recheck-lock', (F, '''		br := b[path[0]]
		if br == nil {
			br = newBranch(path[1:], value)
			b[path[0]] = br
		}
		return br.Add(path[1:], value)''', '''		b[path[0]] = newBranch(path[1:], value)
		return nil'''))
b('a-no-recheck-nil', (F, '	if t.leafBranch == nil {\n		t.leafBranch = branch{}\n	}\n	switch b := t.leafBranch.(type) {\n	case branch:\n		// Verify', '	if _, ok := t.leafBranch.(branch); !ok {\n		t.leafBranch = branch{}\n	}\n	switch b := t.leafBranch.(type) {\n	case branch:\n		// Verify'))
b('a-slow-returns', (F, '''		if br == nil {
			br = newBranch(path[1:], value)
			b[path[0]] = br
		}
		return br.Add(path[1:], value)''', '''		if br == nil {
			b[path[0]] = newBranch(path[1:], value)
		}
		return nil'''))
b('a-no-link', (F, '			b[path[0]] = br\n', ''))
b('a-nb-rest', (F, '			br = newBranch(path[1:], value)\n			b[path[0]] = br\n		}\n		return br.Add(path[1:], value)', '			br = newBranch(path, value)\n			b[path[0]] = br\n			return nil\n		}\n		return br.Add(path[1:], value)'))
b('a-nb-short', (F, '	return &Tree{leafBranch: branch{path[0]: newBranch(path[1:], value)}}', '	return &Tree{leafBranch: branch{path[0]: &Tree{leafBranch: value}}}'), (F, '			b[path[0]] = br\n		}\n		return br.Add(path[1:], value)', '			b[path[0]] = br\n			return nil\n		}\n		return br.Add(path[1:], value)'))
b('a-leaf-ok', (F, '''	default:
		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
	}
	if br == nil {''', '''	default:
		return nil
	}
	if br == nil {'''))
b('a-grow-leaf', (F, '''	default:
		return fmt.Errorf("attempted to add value %#v at path %q which is already a leaf with value %#v", value, path, t.leafBranch)
	}
}

func (t *Tree) terminalAdd''', '''	default:
		t.leafBranch = branch{path[0]: newBranch(path[1:], value)}
		return nil
	}
}

func (t *Tree) terminalAdd'''))
b('a-drop-err', (F, '''		return t.slowAdd(path, value)
	}
	return br.Add(path[1:], value)''', '''		return t.slowAdd(path, value)
	}
	br.Add(path[1:], value)
	return nil'''))
b('a-intermediate-star', (F, '	case nil:\n	case branch:\n		br = b[path[0]]', '	case nil:\n	case branch:\n		br = b[path[0]]\n		if br == nil {\n			br = b["*"]\n		}'))
# ---- Delete
b('d-glob-leaf', (F, '''			if len(subpath) != 0 {
				// The path continues below this leaf.
				return false, nil
			}
''', ''))
b('d-no-prune', (F, '''			if len(b) == 0 {
				return true, allLeaves
			}
''', ''))
b('d-no-prune2', (F, '			return len(t.leafBranch.(branch)) == 0, allLeaves', '			return false, allLeaves'))
b('d-prune-one', (F, '			if len(b) == 0 {\n				return true', '			if len(b) <= 1 {\n				return true'))
b('d-prune-any', (F, '			return len(t.leafBranch.(branch)) == 0, allLeaves', '			return len(t.leafBranch.(branch)) == 0 || len(subpath) == 0, allLeaves'))
b('d-nil-true', (F, '''		case nil:
			// The zero value of Tree holds no leaf.
			return false, nil
''', ''))
b('d-no-del', (F, '''			if delBr {
				delete(b, subpath[0])
			}
''', '''			_ = delBr
'''))
b('d-del-always', (F, '''			if delBr {
				delete(b, subpath[0])
			}
''', '''			_ = delBr
			delete(b, subpath[0])
'''))
b('d-del-if-leaves', (F, '''				if del {
					delete(b, k)
				}''', '''				if del || len(leaves) > 0 {
					delete(b, k)
				}'''))
b('d-root-keep', (F, '''	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
	if delBr {
		t.leafBranch = nil
	}
''', '''	_, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
'''))
b('d-root-always', (F, '''	if delBr {
		t.leafBranch = nil
	}
	return leaves''', '''	if delBr || len(subpath) == 0 {
		t.leafBranch = nil
	}
	return leaves'''))
b('d-root-keep-w', (F, 'if delBr, _ := t.internalDelete(path, condition, f, false); delBr {\n		t.leafBranch = nil\n	}', 't.internalDelete(path, condition, f, false)'))
b('d-cond-skip', (F, '			if condition(t.leafBranch) {', '			if len(subpath) == 0 || condition(t.leafBranch) {'))
b('d-cond-neg', (F, '			if condition(t.leafBranch) {', '			if !condition(t.leafBranch) {'))
b('d-no-f', (F, '				f(t.leafBranch)\n', ''))
b('d-f-first', (F, '			if condition(t.leafBranch) {', '			f(t.leafBranch)\n			if condition(t.leafBranch) {'), (F, '				f(t.leafBranch)\n', ''))
b('d-rest', (F, 'v.internalDelete(subpath, condition', 'v.internalDelete(nil, condition'))
b('d-rest2', (F, 'br.internalDelete(subpath[1:], condition', 'br.internalDelete(subpath, condition'))
b('d-star-keeps', (F, '''		if len(subpath) != 0 {
			subpath = subpath[1:]
		}
''', ''))
b('d-leaf-name', (F, '					leaf := []string{k}\n', '					leaf := []string{}\n'))
b('d-leaf-name2', (F, '				leaf := []string{subpath[0]}\n', '				leaf := subpath[1:]\n'))
b('d-leaves-lost', (F, '''					for _, l := range leaves {
						allLeaves = append(allLeaves, append(leaf, l...))
					}''', '''					if len(leaves) > 0 {
						allLeaves = append(allLeaves, append(leaf, leaves[0]...))
					}'''))
b('d-leaves-only-del', (F, '				if retDeletedPaths {\n					leaf := []string{k}', '				if retDeletedPaths && del {\n					leaf := []string{k}'))
b('d-leaves-dropped', (F, '			// This node still contains branches, don\'t delete it.\n			return false, allLeaves', '			// This node still contains branches, don\'t delete it.\n			return false, nil'))
b('d-no-root-path', (F, '				if retDeletedPaths {\n					return true, [][]string{[]string{}}\n				}\n', ''))
b('d-wd-cond', (F, 't.internalDelete(path, condition, f, false); delBr', 't.internalDelete(path, func(interface{}) bool { return true }, f, false); delBr'))
b('d-skip-star-child', (F, '			for k, v := range b {\n', '			for k, v := range b {\n				if k == "*" {\n					continue\n				}\n'))
# ---- lookups
b('g-through-leaf', (F, '''	if len(path) == 0 {
		return t
	}
	if b, ok''', '''	if len(path) == 0 || !t.isBranch() {
		return t
	}
	if b, ok'''))
b('g-star', (F, '		if br := b[path[0]]; br != nil {\n			return br.Get', '		br := b[path[0]]\n		if br == nil {\n			br = b["*"]\n		}\n		if br != nil {\n			return br.Get'))
b('g-last', (F, '			return br.Get(path[1:])', '			if len(path) == 1 || !br.isBranch() {\n				return br\n			}\n			return br.Get(path[1:])'))
b('v-branch', (F, '	if t.isBranch() {\n		return nil\n	}\n	return t.leafBranch', '	return t.leafBranch'))
b('c-own-map', (F, '''		ret := make(branch)
		for k, v := range t.leafBranch.(branch) {
			ret[k] = v
		}
		return ret''', '		return t.leafBranch.(branch)'))
l('c-own-map-lock', (F, '''		ret := make(branch)
		for k, v := range t.leafBranch.(branch) {
			ret[k] = v
		}
		return ret''', '		return t.leafBranch.(branch)'))
b('c-skip', (F, '			ret[k] = v\n', '			if v.leafBranch != nil {\n				ret[k] = v\n			}\n'))
b('isb', (F, '	t.mu.RLock()\n	return t.isBranch()', '	t.mu.RLock()\n	return t.leafBranch != nil'))
b('l-update-nil', (F, '	l.mu.Lock()\n	l.leafBranch = val', '	l.mu.Lock()\n	if val != nil {\n		l.leafBranch = val\n	}'))
# ---- locks
l('k-value', (F, '	defer l.mu.RUnlock()\n	l.mu.RLock()\n	return l.leafBranch', '	return l.leafBranch'))
l('k-update-r', (F, '	defer l.mu.Unlock()\n	l.mu.Lock()\n	l.leafBranch', '	defer l.mu.RUnlock()\n	l.mu.RLock()\n	l.leafBranch'))
l('k-isbranch', (F, '	defer t.mu.RUnlock()\n	t.mu.RLock()\n	return t.isBranch()', '	return t.isBranch()'))
l('k-get-early', (F, '''	defer t.mu.RUnlock()
	t.mu.RLock()
	if len(path) == 0 {
		return t
	}
	if b, ok := t.leafBranch.(branch); ok {
		if br := b[path[0]]; br != nil {
			return br.Get''', '''	if len(path) == 0 {
		return t
	}
	t.mu.RLock()
	b, ok := t.leafBranch.(branch)
	var br *Tree
	if ok {
		br = b[path[0]]
	}
	t.mu.RUnlock()
	if ok {
		if br != nil {
			return br.Get'''))
l('k-add-uncoupled', (F, '''	return br.Add(path[1:], value)
}

// Add adds''', '''	t.mu.RUnlock()
	readerLocked = false
	return br.Add(path[1:], value)
}

// Add adds'''))
l('k-add-slow-uncoupled', (F, '''		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd(path, value)''', '''		t.mu.Lock()
		t.mu.Unlock()
		return t.slowAdd(path, value)'''))
l('k-add-no-exchange', (F, '''		t.mu.RUnlock()
		readerLocked = false
		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd''', '''		return t.slowAdd'''))
l('k-add-upgrade-deadlock', (F, '''		t.mu.RUnlock()
		readerLocked = false
		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd''', '''		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd'''))
l('k-add-double-unlock', (F, '		readerLocked = false\n', ''))
l('k-terminal-r', (F, '	defer t.mu.Unlock()\n	t.mu.Lock()\n	if _, ok := t.leafBranch.(branch); ok {\n		return fmt', '	defer t.mu.RUnlock()\n	t.mu.RLock()\n	if _, ok := t.leafBranch.(branch); ok {\n		return fmt'))
l('k-terminal-gap', (F, '''	defer t.mu.Unlock()
	t.mu.Lock()
	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value''', '''	if t.IsBranch() {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	defer t.mu.Unlock()
	t.mu.Lock()
	t.leafBranch = value'''))
b('k-terminal-gap2', (F, '''	defer t.mu.Unlock()
	t.mu.Lock()
	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value''', '''	if t.IsBranch() {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	defer t.mu.Unlock()
	t.mu.Lock()
	t.leafBranch = value'''))
l('k-del-child', (F, '				v.mu.Lock()\n', ''), (F, '				v.mu.Unlock()\n', ''))
l('k-del-child-r', (F, '				v.mu.Lock()\n', '				v.mu.RLock()\n'), (F, '				v.mu.Unlock()\n', '				v.mu.RUnlock()\n'))
l('k-del-child2', (F, '			br.mu.Lock()\n', ''), (F, '			br.mu.Unlock()\n', ''))
l('k-del-root-r', (F, '''	defer t.mu.Unlock()
	t.mu.Lock()
	delBr, leaves''', '''	defer t.mu.RUnlock()
	t.mu.RLock()
	delBr, leaves'''))
l('k-del-root-late', (F, '''	defer t.mu.Unlock()
	t.mu.Lock()
	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
	if delBr {
''', '''	t.mu.Lock()
	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
	t.mu.Unlock()
	if delBr {
'''))
l('k-del-leak', (F, '''			br.mu.Unlock()
			if retDeletedPaths {''', '''			if delBr {
				br.mu.Unlock()
			}
			if retDeletedPaths {'''))
l('k-query-snapshot', (F, '''	if b, ok := t.leafBranch.(branch); ok {
		for k, br := range b {
			if err := br.queryInternal(''', '''	if t.isBranch() {
		for k, br := range t.Children() {
			if err := br.queryInternal('''))
l('k-query-unlock', (F, '''	defer t.mu.RUnlock()
	t.mu.RLock()
	if len(path) == 0 || path[0] == "*" {
		return t.enumerateChildren(prefix, path, f)
	}''', '''	t.mu.RLock()
	if len(path) == 0 || path[0] == "*" {
		t.mu.RUnlock()
		return t.enumerateChildren(prefix, path, f)
	}
	defer t.mu.RUnlock()'''))
l('k-walk-go', (F, '			if err := br.walkInternal(append(p, name), f); err != nil {\n				return err\n			}', '			go br.walkInternal(append(p, name), f)'))
l('k-query-leaf-unlocked', (F, '''		default:
			return f(prefix, (*Leaf)(t), t.leafBranch)
		}
		return nil''', '''		default:
			v := t.leafBranch
			t.mu.RUnlock()
			defer t.mu.RLock()
			return f(prefix, (*Leaf)(t), v)
		}
		return nil'''))
l('k-query-recursive-rlock', (F, '	if b, ok := t.leafBranch.(branch); ok {\n		if br := b[path[0]]; br != nil {\n			return br.queryInternal', '	if t.IsBranch() {\n		b := t.leafBranch.(branch)\n		if br := b[path[0]]; br != nil {\n			return br.queryInternal'))
l('k-children-nolock', (F, '	defer t.mu.RUnlock()\n	t.mu.RLock()\n	if t.isBranch() {\n		ret', '	if t.isBranch() {\n		ret'))

# ---- same behaviour
k('ok-q-switch', (F, '''	if len(path) == 0 || path[0] == "*" {
		return t.enumerateChildren(prefix, path, f)
	}
	if b, ok := t.leafBranch.(branch); ok {
		if br := b[path[0]]; br != nil {
			return br''', '''	switch {
	case len(path) == 0, path[0] == "*":
		return t.enumerateChildren(prefix, path, f)
	}
	if b, ok := t.leafBranch.(branch); ok {
		if br, ok := b[path[0]]; ok && br != nil {
			return br'''))
k('ok-q-child-helper', (F, 'append(prefix[:len(prefix):len(prefix)], k), nil, f)', 'join(prefix, k), nil, f)'), (F, 'append(prefix[:len(prefix):len(prefix)], k), path[1:], f)', 'join(prefix, k), path[1:], f)'), (F, 'append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)', 'join(prefix, path[0]), path[1:], f)'), (F, 'func (t *Tree) walkInternal(', '''func join(prefix []string, name string) []string {
	p := make([]string, len(prefix), len(prefix)+1)
	copy(p, prefix)
	return append(p, name)
}

func (t *Tree) walkInternal('''))
k('ok-q-join2', (F, 'append(prefix[:len(prefix):len(prefix)], k), nil, f)', 'join(prefix, k), nil, f)'), (F, 'append(prefix[:len(prefix):len(prefix)], k), path[1:], f)', 'join(prefix, k), path[1:], f)'), (F, 'append(prefix[:len(prefix):len(prefix)], path[0]), path[1:], f)', 'join(prefix, path[0]), path[1:], f)'), (F, 'func (t *Tree) walkInternal(', '''func join(prefix []string, name string) []string {
	p := make([]string, 0, len(prefix)+1)
	p = append(p, prefix...)
	return append(p, name)
}

func (t *Tree) walkInternal('''))
k('ok-q-join3', (F, 'append(prefix[:len(prefix):len(prefix)], k), nil, f)', 'append(append([]string(nil), prefix...), k), nil, f)'))
k('ok-q-unlock', (F, '''	defer t.mu.RUnlock()
	t.mu.RLock()
	if len(path) == 0 || path[0] == "*" {
		return t.enumerateChildren(prefix, path, f)
	}
	if b''', '''	t.mu.RLock()
	defer t.mu.RUnlock()
	if len(path) == 0 || path[0] == "*" {
		return t.enumerateChildren(prefix, path, f)
	}
	if b'''))
k('ok-q-merge', (F, '''	switch b := t.leafBranch.(type) {
		case branch:
			for k, br := range b {
				if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f); err != nil {
					return err
				}
			}
		case nil: // do nothing
		default:
			return f(prefix, (*Leaf)(t), t.leafBranch)
		}
		return nil
	}
	if b, ok := t.leafBranch.(branch); ok {
		for k, br := range b {
			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {
				return err
			}
		}
	}
	return nil''', '''	if !t.isBranch() {
			if t.leafBranch == nil {
				return nil
			}
			return f(prefix, (*Leaf)(t), t.leafBranch)
		}
	}
	var rest []string
	if len(path) > 0 {
		rest = path[1:]
	}
	b, _ := t.leafBranch.(branch)
	for k, br := range b {
		if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), rest, f); err != nil {
			return err
		}
	}
	return nil'''))
k('ok-w-append', (F, '''			p := make([]string, l, l+1)
			copy(p, path)
			if err := br.walkInternal(append(p, name), f); err != nil {''', '''			p := append(path[:l:l], name)
			if err := br.walkInternal(p, f); err != nil {'''))
k('ok-w-index', (F, '''			p := make([]string, l, l+1)
			copy(p, path)
			if err := br.walkInternal(append(p, name), f); err != nil {''', '''			p := make([]string, l+1)
			copy(p, path)
			p[l] = name
			if err := br.walkInternal(p, f); err != nil {'''))
k('ok-ws-slices', (F, '''		names := make([]string, 0, len(b))
		for name := range b {
			names = append(names, name)
		}
		sort.Strings(names)
		l := len(path)''', '''		names := slices.Sorted(maps.Keys(b))
		l := len(path)'''), (F, '	"sort"\n', '	"maps"\n	"slices"\n	"sort"\n'))
k('ok-ws-index', (F, '''		for _, name := range names {
			p := make([]string, l, l+1)
			copy(p, path)
''', '''		for i := 0; i < len(names); i++ {
			name := names[i]
			p := make([]string, l, l+1)
			copy(p, path)
'''))
k('ok-ws-keys-helper', (F, '''		names := make([]string, 0, len(b))
		for name := range b {
			names = append(names, name)
		}
		sort.Strings(names)
		l := len(path)''', '''		names := b.names()
		l := len(path)'''), (F, 'func (t *Tree) walkInternalSorted', '''func (b branch) names() []string {
	var names []string
	for name := range b {
		names = append(names, name)
	}
	sort.Strings(names)
	return names
}

func (t *Tree) walkInternalSorted'''))
k('ok-a-inline', (F, '''func (t *Tree) Add(path []string, value interface{}) error {
	if len(path) == 0 {
		return t.terminalAdd(value)
	}
''', '''func (t *Tree) Add(path []string, value interface{}) error {
	if len(path) == 0 {
		t.mu.Lock()
		defer t.mu.Unlock()
		if t.isBranch() {
			return fmt.Errorf("attempted to add a leaf in place of a branch")
		}
		t.leafBranch = value
		return nil
	}
'''), (F, '''func (t *Tree) terminalAdd(value interface{}) error {
	defer t.mu.Unlock()
	t.mu.Lock()
	if _, ok := t.leafBranch.(branch); ok {
		return fmt.Errorf("attempted to add a leaf in place of a branch")
	}
	t.leafBranch = value
	return nil
}

''', ''))
k('ok-a-nb-return', (F, '''		if br == nil {
			br = newBranch(path[1:], value)
			b[path[0]] = br
		}
		return br.Add(path[1:], value)''', '''		if br != nil {
			return br.Add(path[1:], value)
		}
		b[path[0]] = newBranch(path[1:], value)
		return nil'''))
k('ok-a-nb-loop', (F, '''	if len(path) == 0 {
		return &Tree{leafBranch: value}
	}
	return &Tree{leafBranch: branch{path[0]: newBranch(path[1:], value)}}''', '''	t := &Tree{leafBranch: value}
	for i := len(path) - 1; i >= 0; i-- {
		t = &Tree{leafBranch: branch{path[i]: t}}
	}
	return t'''))
k('ok-a-nb-loop2', (F, '''	if len(path) == 0 {
		return &Tree{leafBranch: value}
	}
	return &Tree{leafBranch: branch{path[0]: newBranch(path[1:], value)}}''', '''	t := &Tree{leafBranch: value}
	for i := len(path) - 1; i >= 0; i-- {
		t = &Tree{leafBranch: branch{path[i]: t}}
	}
	return t'''), (F, '''		if br == nil {
			br = newBranch(path[1:], value)
			b[path[0]] = br
		}
		return br.Add(path[1:], value)''', '''		if br == nil {
			b[path[0]] = newBranch(path[1:], value)
			return nil
		}
		return br.Add(path[1:], value)'''))
k('ok-a-grow-filled', (F, '''	if t.leafBranch == nil {
		t.leafBranch = branch{}
	}
	switch''', '''	if t.leafBranch == nil {
		t.leafBranch = branch{path[0]: newBranch(path[1:], value)}
		return nil
	}
	switch'''))
k('ok-a-explicit-unlock', (F, '''	readerLocked := true
	defer func() {
		if readerLocked {
			t.mu.RUnlock()
		}
	}()
	t.mu.RLock()
	var br *Tree
	switch b := t.leafBranch.(type) {
	case nil:
	case branch:
		br = b[path[0]]
	default:
		return fmt.Errorf(''', '''	t.mu.RLock()
	var br *Tree
	switch b := t.leafBranch.(type) {
	case nil:
	case branch:
		br = b[path[0]]
	default:
		defer t.mu.RUnlock()
		return fmt.Errorf('''), (F, '''		t.mu.RUnlock()
		readerLocked = false
		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd(path, value)
	}
	return br.Add''', '''		t.mu.RUnlock()
		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd(path, value)
	}
	defer t.mu.RUnlock()
	return br.Add'''))
k('ok-d-lock-helper', (F, '''				v.mu.Lock()
				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
				v.mu.Unlock()
''', '''				del, leaves := v.lockedDelete(subpath, condition, f, retDeletedPaths)
'''), (F, '''			br.mu.Lock()
			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
			br.mu.Unlock()
''', '''			delBr, allLeaves := br.lockedDelete(subpath[1:], condition, f, retDeletedPaths)
'''), (F, '// DeleteConditional removes', '''func (t *Tree) lockedDelete(subpath []string, condition func(interface{}) bool, f func(interface{}), ret bool) (bool, [][]string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.internalDelete(subpath, condition, f, ret)
}

// DeleteConditional removes'''))
k('ok-d-len-b', (F, 'return len(t.leafBranch.(branch)) == 0, allLeaves', 'return len(b) == 0, allLeaves'))
k('ok-d-ret', (F, '''			if len(b) == 0 {
				return true, allLeaves
			}
			// This node still contains branches, don't delete it.
			return false, allLeaves''', '''			return len(b) == 0, allLeaves'''))
k('ok-d-wd-direct', (F, '''	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
	if delBr {
		t.leafBranch = nil
	}
	return leaves''', '''	del, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
	if !del {
		return leaves
	}
	t.leafBranch = nil
	return leaves'''))
k('ok-d-collect', (F, '''					for _, l := range leaves {
						allLeaves = append(allLeaves, append(leaf, l...))
					}''', '''					for i := range leaves {
						allLeaves = append(allLeaves, append(leaf[:1:1], leaves[i]...))
					}'''))
k('ok-d-collect2', (F, '''				leaf := []string{subpath[0]}
				// Prepend branch node name to all progeny leaves of branch.
				for i := range allLeaves {
					allLeaves[i] = append(leaf, allLeaves[i]...)
				}''', '''				for i, l := range allLeaves {
					allLeaves[i] = append([]string{subpath[0]}, l...)
				}'''))
k('ok-g-flat', (F, '''	if b, ok := t.leafBranch.(branch); ok {
		if br := b[path[0]]; br != nil {
			return br.Get(path[1:])
		}
	}
	return nil''', '''	b, _ := t.leafBranch.(branch)
	br := b[path[0]]
	if br == nil {
		return nil
	}
	return br.Get(path[1:])'''))
k('ok-c-clone', (F, '''		ret := make(branch)
		for k, v := range t.leafBranch.(branch) {
			ret[k] = v
		}
		return ret''', '''		return maps.Clone(t.leafBranch.(branch))'''), (F, '	"fmt"\n', '	"fmt"\n	"maps"\n'))
k('ok-value-switch', (F, '''	if t.isBranch() {
		return nil
	}
	return t.leafBranch
}''', '''	switch v := t.leafBranch.(type) {
	case branch:
		return nil
	default:
		return v
	}
}'''))
