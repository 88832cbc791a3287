C = 'cache/cache.go'
V = 'value/value.go'
G = 'client/gnmi/client.go'
L = 'cli/cli.go'
S = 'subscribe/subscribe.go'
P = 'path/path.go'
T = 'ctree/tree.go'
N = 'manager/manager.go'
M = [
    ('cr-empty', 'C12', 'bug', [(C, '''	if len(path) == 0 {
		return nil, errors.New("update has an empty path")
	}
''', '')]),
    ('cr-metaalone', 'C12', 'bug', [(C, '''		if len(path) == 1 {
			return nil, fmt.Errorf("update replaces the whole %q subtree", metadata.Root)
		}
''', '')]),
    ('cr-rm1', 'C12', 'bug', [(C, 'len(path) > 1 && path[0] == metadata.Root', 'len(path) > 0 && path[0] == metadata.Root')]),
    ('cr-atomic0', 'C12', 'bug', [(C, '''		if l == 0 {
			t.meta.AddInt(metadata.EmptyCount, 1)
			return nil
		}
''', '')]),
    ('cr-noprefix', 'C12', 'bug', [(C, '''	if target == nil {
		return fmt.Errorf("target %q not found in cache", n.GetPrefix().GetTarget())
	}
''', '')]),
    ('cr-metaval', 'C12', 'bug', [(C, '''			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)''', '''			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)''')]),
    ('cr-metaassert', 'C12', 'bug', [(C, '''			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
			if !ok {
				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
			}
''', '''			tv := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
''')]),
    ('cr-real', 'C12', 'bug', [(C, 'return len(path) == 0 || path[0] != metadata.Root', 'return path[0] != metadata.Root')]),
    ('cr-early', 'C12', 'bug', [(C, '''			accepted = func() { t.meta.SetBool(metadata.Connected, tv.BoolVal) }''', '''			t.meta.SetBool(metadata.Connected, tv.BoolVal)''')]),
    ('cr-corrupt', 'C12', 'bug', [(C, '''		old, ok := oldval.Value().(*pb.Notification)
		if !ok {
			return nil, fmt.Errorf("corrupt schema with collision for path %q, got %T", path, oldval.Value())
		}
''', '''		old := oldval.Value().(*pb.Notification)
''')]),
    ('cr-dbl', 'C12', 'bug', [(V, '''		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
		if !ok {
			return false
		}
		return av.DoubleVal == bv.DoubleVal''', '''		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
		if !ok {
			return false
		}
		return av.DoubleVal == bv.DoubleVal''')]),
    ('cr-len', 'C12', 'bug', [(V, '''		if len(ae) != len(be) {
			return false
		}
''', '')]),
    ('cr-dec', 'C12', 'bug', [(V, '''float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))''', '''float32(d.GetDigits() / int64(math.Pow(10, float64(d.GetPrecision()))))''')]),
    ('cr-oldval', 'C12', 'bug', [(G, '''	if v == nil {
		return nil, nil
	}
''', '')]),
    ('cr-cliempty', 'C12', 'bug', [(L, '''	if len(path) == 0 {
		// A root leaf has no path element to be displayed under.
		path = []string{""}
	}
''', '')]),
    ('cr-climap', 'C12', 'bug', [(L, '''		mm = make(pathmap)
''', '''		mm = pathmap(nil)
''')]),
    ('cr-cliassert', 'C12', 'bug', [(L, '''	mm, ok := m[path[0]].(pathmap)
	if !ok {
		mm = make(pathmap)
	}
''', '''	if _, found := m[path[0]]; !found {
		m[path[0]] = make(pathmap)
	}
	mm := m[path[0]].(pathmap)
''')]),
    ('cr-subnil', 'C12', 'bug', [(S, '''	case c.sr.GetSubscribe() == nil:
		return status.Errorf(codes.InvalidArgument, "request must contain a subscription %#v", c.sr)
	case c.sr.GetSubscribe().GetPrefix() == nil:
		return status.Errorf(codes.InvalidArgument, "request must contain a prefix %#v", c.sr)
	case c.sr.GetSubscribe().GetPrefix().GetTarget() == "":
		return status.Error(codes.InvalidArgument, "missing target")
	}

	c.target = c.sr.GetSubscribe().GetPrefix().GetTarget()
''', '''	case c.sr.GetSubscribe() == nil:
		return status.Errorf(codes.InvalidArgument, "request must contain a subscription %#v", c.sr)
	}

	c.target = c.sr.GetSubscribe().Prefix.Target
''')]),
    ('cr-resp', 'C12', 'bug', [(N, '''	default:
		return fmt.Errorf("received unknown response %T: %s", v, v)
''', '''	default:
		panic(fmt.Sprintf("received unknown response %T: %s", v, v))
''')]),
    ('cr-path', 'C12', 'bug', [(P, '''		case 1:
			// Special case single key lists, append the only value.
			for _, v := range keys {
				is = append(is, v)
			}
		default:''', '''		case 1, 2:
			// Special case single key lists, append the only value.
			is = append(is, sortedVals(keys)[len(keys)-1], sortedVals(keys)[1])
		default:''')]),
    ('cr-nilnode', 'C12', 'bug', [(T, '''	if t == nil || len(path) == 0 {''', '''	if len(path) == 0 {''')]),
    ('cr-fatal', 'C12', 'bug', [(G, '''		return nil, fmt.Errorf("Unsupported value type: %v", v.Type)''', '''		log.Exitf("Unsupported value type: %v", v.Type)
		return nil, nil''')]),
    ('ok-getters', 'C12', 'ok', [(C, 'suffix := n.Update[0].Path', 'suffix := n.GetUpdate()[0].GetPath()'), (C, '		u := n.Update[0]\n', '		u := n.GetUpdate()[0]\n')]),
    ('ok-switch', 'C12', 'ok', [(C, '''	if len(path) == 0 {
		return nil, errors.New("update has an empty path")
	}
	if path[0] == metadata.Root {
		if len(path) == 1 {
			return nil, fmt.Errorf("update replaces the whole %q subtree", metadata.Root)
		}
''', '''	isMeta := len(path) > 0 && path[0] == metadata.Root
	switch {
	case len(path) == 0:
		return nil, errors.New("update has an empty path")
	case isMeta && len(path) == 1:
		return nil, fmt.Errorf("update replaces the whole %q subtree", metadata.Root)
	}
	if isMeta {
''')]),
    ('ok-add', 'C12', 'ok', [(L, '''	if len(path) == 1 {
		m[path[0]] = v
		return
	}

	mm, ok := m[path[0]].(pathmap)
	if !ok {
		mm = make(pathmap)
	}
	mm.add(path[1:], v)
	m[path[0]] = mm''', '''	for len(path) > 1 {
		next, ok := m[path[0]].(pathmap)
		if !ok {
			next = make(pathmap)
			m[path[0]] = next
		}
		m, path = next, path[1:]
	}
	m[path[0]] = v''')]),
    ('ok-noti', 'C12', 'ok', [(G, '''	v := u.Value
	// Empty path update ignore the value.
	if v == nil {
		return nil, nil
	}
	switch v.Type {''', '''	v := u.GetValue()
	// Empty path update ignore the value.
	if u.Value == nil {
		return nil, nil
	}
	switch v.GetType() {''')]),
    ('ok-equal', 'C12', 'ok', [(V, '''		for i := range ae {
			if !Equal(ae[i], be[i]) {
				return false
			}
		}
		return true''', '''		i := 0
		for ; i < len(be); i++ {
			if !Equal(ae[i], be[i]) {
				break
			}
		}
		return i == len(ae)''')]),
]
