P = 'path/path.go'
V = 'value/value.go'
G = 'client/gnmi/client.go'
SV = '''	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	vs := make([]string, 0, len(m))
	for _, k := range ks {
		vs = append(vs, m[k])
	}
	return vs
'''
LOOP = '''	for _, e := range p.GetElem() {
		is = append(is, e.GetName())
		keys := e.GetKey()
		switch len(keys) {
		case 0:
			// No keys, don't do anything.
		case 1:
			// Special case single key lists, append the only value.
			for _, v := range keys {
				is = append(is, v)
			}
		default:
			is = append(is, sortedVals(keys)...)
		}
	}
	return is
'''
ESC = '''	for i, e := range qq {
		qq[i] = strings.Replace(e, "/", "\\\\/", -1)
	}
'''
M = [
 ('sort-drop', 'C19', 'bug', [(P, '	sort.Strings(ks)\n', '	_ = sort.Strings\n')]),
 ('sort-vals', 'C19', 'bug', [(P, SV, '''	vs := make([]string, 0, len(m))
	for _, v := range m {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	return vs
''')]),
 ('sort-two', 'C19', 'bug', [(P, '	sort.Strings(ks)\n', '	if len(ks) > 2 {\n		sort.Strings(ks)\n	}\n')]),
 ('sort-reverse', 'C19', 'bug', [(P, '	sort.Strings(ks)\n', '	sort.Slice(ks, func(i, j int) bool { return ks[j] < ks[i] })\n')]),
 ('sort-len', 'C19', 'bug', [(P, '	sort.Strings(ks)\n', '	sort.Slice(ks, func(i, j int) bool { return len(ks[i]) < len(ks[j]) })\n')]),
 ('case-two', 'C19', 'bug', [(P, '		case 1:\n', '		case 1, 2:\n')]),
 ('skip-empty-val', 'C19', 'bug', [(P, '		vs = append(vs, m[k])\n', '		if m[k] != "" {\n			vs = append(vs, m[k])\n		}\n')]),
 ('skip-empty-one', 'C19', 'bug', [(P, '				is = append(is, v)\n', '				if v != "" {\n					is = append(is, v)\n				}\n')]),
 ('skip-empty-key', 'C19', 'bug', [(P, '		ks = append(ks, k)\n', '		if k != "" {\n			ks = append(ks, k)\n		}\n')]),
 ('key-name', 'C19', 'bug', [(P, '		vs = append(vs, m[k])\n', '		vs = append(vs, k)\n')]),
 ('last-key', 'C19', 'bug', [(P, '	for _, k := range ks {\n', '	for _, k := range ks[:len(ks)-1] {\n')]),
 ('elem-empty', 'C19', 'bug', [(P, '		is = append(is, e.GetName())\n', '		if e.GetName() != "" {\n			is = append(is, e.GetName())\n		}\n')]),
 ('vals-first', 'C19', 'bug', [(P, LOOP, LOOP.replace('		is = append(is, e.GetName())\n', '').replace('sortedVals(keys)...)\n		}\n', 'sortedVals(keys)...)\n		}\n		is = append(is, e.GetName())\n'))]),
 ('origin-first', 'C19', 'bug', [(P, '''		if t := p.GetTarget(); t != "" {
			is = append(is, t)
		}
''', ''), (P, '''			is = append(is, o)
		}
''', '''			is = append(is, o)
		}
		if t := p.GetTarget(); t != "" {
			is = append(is, t)
		}
''')]),
 ('origin-always', 'C19', 'bug', [(P, '''		if o := p.GetOrigin(); o != "" {
			is = append(is, o)
		}
	}
''', '''	}
	if o := p.GetOrigin(); o != "" {
		is = append(is, o)
	}
''')]),
 ('target-empty', 'C19', 'bug', [(P, '		if t := p.GetTarget(); t != "" {\n', '		if t := p.GetTarget(); t != "" || p.GetOrigin() != "" {\n')]),
 ('both', 'C19', 'bug', [(P, '		return append(is, p.GetElement()...)\n	}\n', '		is = append(is, p.GetElement()...)\n	}\n'), (P, 'if len(p.GetElem()) == 0 {', 'if len(p.GetElement()) != 0 {')]),
 ('elems-from-1', 'C19', 'bug', [(P, 'for _, e := range p.GetElem() {', 'for _, e := range p.GetElem()[1:] {')]),
 ('max-len', 'C19', 'bug', [(P, '	return is\n', '	if len(is) > maxPathLen {\n		is = is[:maxPathLen]\n	}\n	return is\n')]),
 ('nil-path', 'C19', 'ok', [(P, '	if p == nil {\n		return []string{}\n	}\n', '')]),
 ('elem-nil-panic', 'C19', 'bug', [(P, 'is = append(is, e.GetName())', 'is = append(is, e.Name)')]),
 ('keys-mutated', 'C19', 'bug', [(P, '		vs = append(vs, m[k])\n', '		vs = append(vs, m[k])\n		delete(m, k)\n')]),
 ('elem-shared', 'C19', 'bug', [(P, '		return append(is, p.GetElement()...)\n', '		if len(is) > 0 {\n			return is\n		}\n		return append(is, p.GetElement()...)\n')]),
 # benign
 ('ok-slices', 'C19', 'ok', [(P, '	sort.Strings(ks)\n', '	slices.Sort(ks)\n'), (P, '	"sort"\n', '	"slices"\n')]),
 ('ok-sorted-keys', 'C19', 'ok', [(P, SV, '''	vs := make([]string, 0, len(m))
	for _, k := range slices.Sorted(maps.Keys(m)) {
		vs = append(vs, m[k])
	}
	return vs
'''), (P, '	"sort"\n', '	"maps"\n	"slices"\n')]),
 ('ok-sortslice', 'C19', 'ok', [(P, '	sort.Strings(ks)\n', '	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })\n')]),
 ('ok-always-sorted', 'C19', 'ok', [(P, LOOP, '''	for _, e := range p.GetElem() {
		is = append(is, e.GetName())
		is = append(is, sortedVals(e.GetKey())...)
	}
	return is
''')]),
 ('ok-append-keys', 'C19', 'ok', [(P, LOOP, '''	for i := 0; i < len(p.GetElem()); i++ {
		e := p.GetElem()[i]
		is = appendKeys(append(is, e.GetName()), e.GetKey())
	}
	return is
'''), (P, 'func sortedVals(', '''func appendKeys(is []string, m map[string]string) []string {
	if len(m) == 0 {
		return is
	}
	ks := make([]string, len(m))
	i := 0
	for k := range m {
		ks[i] = k
		i++
	}
	sort.Strings(ks)
	for _, k := range ks {
		is = append(is, m[k])
	}
	return is
}

func sortedVals(''')]),
 ('ok-indexed', 'C19', 'ok', [(P, '''	vs := make([]string, 0, len(m))
	for _, k := range ks {
		vs = append(vs, m[k])
	}
''', '''	vs := make([]string, len(m))
	for i, k := range ks {
		vs[i] = m[k]
	}
''')]),
 ('ok-inplace', 'C19', 'ok', [(P, '''	vs := make([]string, 0, len(m))
	for _, k := range ks {
		vs = append(vs, m[k])
	}
	return vs
''', '''	for i, k := range ks {
		ks[i] = m[k]
	}
	return ks
''')]),
 ('ok-if-chain', 'C19', 'ok', [(P, LOOP, '''	for _, e := range p.GetElem() {
		is = append(is, e.GetName())
		if keys := e.GetKey(); len(keys) == 1 {
			for k := range keys {
				is = append(is, keys[k])
			}
		} else if len(keys) > 1 {
			is = append(is, sortedVals(keys)...)
		}
	}
	return is
''')]),
 ('ok-lead-helper', 'C19', 'ok', [(P, '''		if t := p.GetTarget(); t != "" {
			is = append(is, t)
		}
		// add origin to the list of index strings
		if o := p.GetOrigin(); o != "" {
			is = append(is, o)
		}
''', '''		for _, s := range []string{p.GetTarget(), p.GetOrigin()} {
			if s != "" {
				is = append(is, s)
			}
		}
''')]),
 ('ok-element-loop', 'C19', 'ok', [(P, '		return append(is, p.GetElement()...)\n', '		for _, e := range p.GetElement() {\n			is = append(is, e)\n		}\n		return is\n')]),
 ('ok-exact-cap', 'C19', 'ok', [(P, 'is := make([]string, 0, maxPathLen)', 'is := make([]string, 0, maxPathLen+len(p.GetElement()))')]),
 # CompletePath
 ('cp-both', 'C19', 'bug', [(P, '	case oPre != "" && oPath != "":\n', '	case oPre != "" && oPath != "" && oPre != oPath:\n')]),
 ('cp-prefix-elems', 'C19', 'bug', [(P, '		if len(indexedPrefix) > 0 {\n', '		if len(prefix.GetElem()) > 0 {\n')]),
 ('cp-drop-prefix', 'C19', 'bug', [(P, '		fullPrefix = append(fullPrefix, oPre)\n		fullPrefix = append(fullPrefix, indexedPrefix...)\n', '		fullPrefix = append(fullPrefix, oPre)\n')]),
 ('cp-origin-last', 'C19', 'bug', [(P, '		fullPrefix = append(fullPrefix, oPre)\n		fullPrefix = append(fullPrefix, indexedPrefix...)\n', '		fullPrefix = append(fullPrefix, indexedPrefix...)\n		fullPrefix = append(fullPrefix, oPre)\n')]),
 ('cp-reject-none', 'C19', 'bug', [(P, '	default:\n		// Neither', '	case len(indexedPrefix) == 0 && path == nil:\n		return nil, errors.New("empty")\n	default:\n		// Neither')]),
 ('cp-target', 'C19', 'bug', [(P, '	return append(fullPrefix, ToStrings(path, false)...), nil', '	return append(fullPrefix, ToStrings(path, oPre == "" && oPath == "")...), nil')]),
 ('cp-origin-twice', 'C19', 'bug', [(P, '	return append(fullPrefix, ToStrings(path, false)...), nil', '	return append(fullPrefix, ToStrings(path, true)...), nil')]),
 ('ok-cp', 'C19', 'ok', [(P, '''	var fullPrefix []string
	indexedPrefix := ToStrings(prefix, false)
	switch {
	case oPre != "" && oPath != "":
		return nil, errors.New("origin is set both in prefix and path")
	case oPre != "":
		fullPrefix = append(fullPrefix, oPre)
		fullPrefix = append(fullPrefix, indexedPrefix...)
	case oPath != "":
		if len(indexedPrefix) > 0 {
			return nil, errors.New("path elements in prefix are set even though origin is set in path")
		}
		fullPrefix = append(fullPrefix, oPath)
	default:
		// Neither prefix nor path specified an origin. Include the path elements in prefix.
		fullPrefix = append(fullPrefix, indexedPrefix...)
	}

	return append(fullPrefix, ToStrings(path, false)...), nil
''', '''	if oPre != "" && oPath != "" {
		return nil, errors.New("origin is set both in prefix and path")
	}
	pre, rest := ToStrings(prefix, false), ToStrings(path, false)
	if oPath != "" && len(pre) != 0 {
		return nil, errors.New("path elements in prefix are set even though origin is set in path")
	}
	full := make([]string, 0, len(pre)+len(rest)+1)
	if o := oPre + oPath; o != "" {
		full = append(full, o)
	}
	full = append(full, pre...)
	return append(full, rest...), nil
''')]),
 ('ok-cp2', 'C19', 'ok', [(P, '	return append(fullPrefix, ToStrings(path, false)...), nil', '	fullPrefix = append(fullPrefix, ToStrings(path, false)...)\n	return fullPrefix, nil')]),
 # the client
 ('q-noescape', 'C19', 'bug', [(G, ESC, '')]),
 ('q-escape-once', 'C19', 'bug', [(G, '"\\\\/", -1)', '"\\\\/", 1)')]),
 ('q-first-only', 'C19', 'bug', [(G, '	for i, e := range qq {\n', '	for i, e := range qq[:len(qq)/2] {\n')]),
 ('q-skip-first', 'C19', 'bug', [(G, '	for i, e := range qq {\n', '	for i, e := range qq {\n		if i == 0 {\n			continue\n		}\n')]),
 ('q-inplace', 'C19', 'bug', [(G, '	qq := make(client.Path, len(q))\n	copy(qq, q)\n', '	qq := q\n')]),
 ('q-join', 'C19', 'bug', [(G, 'strings.Join(qq, "/")', 'strings.Join(q, "/")')]),
 ('q-dedupe', 'C19', 'bug', [(G, '		s.Subscribe.Subscription = append(', '		if len(pp.Elem) == 0 {\n			continue\n		}\n		s.Subscribe.Subscription = append(')]),
 ('q-prefix-origin', 'C19', 'bug', [(G, '&gpb.Path{Target: q.Target}', '&gpb.Path{Target: q.Target, Origin: "openconfig"}')]),
 ('q-mode', 'C19', 'bug', [(G, '	case client.Poll:\n		return gpb.SubscriptionList_POLL\n', '')]),
 ('q-uo', 'C19', 'bug', [(G, '	if q.UpdatesOnly {\n', '	if q.UpdatesOnly && q.Type == client.Stream {\n')]),
 ('q-err', 'C19', 'bug', [(G, '''		if err != nil {
			return nil, fmt.Errorf("invalid query path %q: %v", qq, err)
		}
''', '''		if err != nil {
			log.Errorf("invalid query path %q: %v", qq, err)
			continue
		}
''')]),
 ('ok-q-all', 'C19', 'ok', [(G, 'strings.Replace(e, "/", "\\\\/", -1)', 'strings.ReplaceAll(e, "/", "\\\\/")')]),
 ('ok-q-append', 'C19', 'ok', [(G, '''	qq := make(client.Path, len(q))
	copy(qq, q)
''', '	var qq []string\n'), (G, ESC, '''	for _, e := range q {
		qq = append(qq, strings.Replace(e, "/", "\\\\/", -1))
	}
''')]),
 ('ok-q-index', 'C19', 'ok', [(G, '''	qq := make(client.Path, len(q))
	copy(qq, q)
''', '	qq := make([]string, len(q))\n'), (G, ESC, '''	for i := range q {
		qq[i] = strings.Replace(q[i], "/", "\\\\/", -1)
	}
''')]),
 ('ok-q-uo', 'C19', 'ok', [(G, '	if q.UpdatesOnly {\n		s.Subscribe.UpdatesOnly = true\n	}\n', '	s.Subscribe.UpdatesOnly = q.UpdatesOnly\n')]),
 ('ok-q-subs', 'C19', 'ok', [(G, '''		s.Subscribe.Subscription = append(s.Subscribe.Subscription, &gpb.Subscription{Path: pp})
	}
''', '''		subs = append(subs, &gpb.Subscription{Path: pp})
	}
	s.Subscribe.Subscription = subs
'''), (G, '	for _, qq := range q.Queries {\n', '	var subs []*gpb.Subscription\n	for _, qq := range q.Queries {\n')]),
 ('ok-q-list', 'C19', 'ok', [(G, '''	s := &gpb.SubscribeRequest_Subscribe{
		Subscribe: &gpb.SubscriptionList{
			Mode:   getType(q.Type),
			Prefix: &gpb.Path{Target: q.Target},
		},
	}
	if q.UpdatesOnly {
		s.Subscribe.UpdatesOnly = true
	}
''', '''	sl := &gpb.SubscriptionList{
		Mode:        getType(q.Type),
		Prefix:      &gpb.Path{Target: q.Target},
		UpdatesOnly: q.UpdatesOnly,
		Encoding:    q.Encoding,
	}
'''), (G, 's.Subscribe.Subscription = append(s.Subscribe.Subscription, ', 'sl.Subscription = append(sl.Subscription, '), (G, '	s.Subscribe.Encoding = q.Encoding\n	return &gpb.SubscribeRequest{Request: s}, nil', '	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: sl}}, nil')]),
 # FromScalar
 ('fs-int', 'C19', 'bug', [(V, 'pb.TypedValue_IntVal{v}', 'pb.TypedValue_IntVal{int64(int32(v))}')]),
 ('fs-uint', 'C19', 'bug', [(V, '	case uint64:\n		tv.Value = &pb.TypedValue_UintVal{v}', '	case uint64:\n		tv.Value = &pb.TypedValue_IntVal{int64(v)}')]),
 ('fs-u32', 'C19', 'bug', [(V, '	case uint32:\n		tv.Value = &pb.TypedValue_UintVal{uint64(v)}', '	case uint32:\n		tv.Value = &pb.TypedValue_UintVal{uint64(uint16(v))}')]),
 ('fs-float', 'C19', 'bug', [(V, '	case float64:\n		tv.Value = &pb.TypedValue_DoubleVal{v}', '	case float64:\n		tv.Value = &pb.TypedValue_FloatVal{float32(v)}')]),
 ('fs-float2', 'C19', 'bug', [(V, '	case float64:\n		tv.Value = &pb.TypedValue_DoubleVal{v}', '	case float64:\n		tv.Value = &pb.TypedValue_DoubleVal{math.Round(v*1e9) / 1e9}')]),
 ('fs-strings', 'C19', 'bug', [(V, '			sa.Element[x] = &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}}\n', '			if s == "" {\n				continue\n			}\n			sa.Element[x] = &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}}\n')]),
 ('fs-strings-off', 'C19', 'bug', [(V, '			sa.Element[x] = &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}}\n', '			sa.Element[len(v)-1-x] = &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}}\n')]),
 ('fs-err-lost', 'C19', 'bug', [(V, '''			if err != nil {
				return nil, fmt.Errorf("in []interface{}: %v", err)
			}
''', '			if err != nil {\n				break\n			}\n')]),
 ('fs-empty-bytes', 'C19', 'bug', [(V, '		tv.Value = &pb.TypedValue_BytesVal{v}', '		if len(v) == 0 {\n			v = []byte{0}\n		}\n		tv.Value = &pb.TypedValue_BytesVal{v}')]),
 ('fs-utf8', 'C19', 'bug', [(V, 'if utf8.ValidString(v) {', 'if utf8.ValidString(v) && len(v) < 65536 {')]),
 ('fs-utf8-fix', 'C19', 'bug', [(V, '			tv.Value = &pb.TypedValue_StringVal{v}\n', '			tv.Value = &pb.TypedValue_StringVal{strings.TrimSpace(v)}\n'), (V, '	"unicode/utf8"\n', '	"strings"\n	"unicode/utf8"\n')]),
 ('ok-fs-helper', 'C19', 'ok', [(V, '''		sa := &pb.ScalarArray{Element: make([]*pb.TypedValue, len(v))}
		for x, s := range v {
			sa.Element[x] = &pb.TypedValue{Value: &pb.TypedValue_StringVal{s}}
		}
		tv.Value = &pb.TypedValue_LeaflistVal{sa}
''', '''		tv.Value = &pb.TypedValue_LeaflistVal{stringArray(v)}
'''), (V, '// DeprecatedScalar is', '''func stringArray(v []string) *pb.ScalarArray {
	var es []*pb.TypedValue
	for _, s := range v {
		es = append(es, &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}})
	}
	return &pb.ScalarArray{Element: es}
}

// DeprecatedScalar is''')]),
 ('ok-fs-invert', 'C19', 'ok', [(V, '''		if utf8.ValidString(v) {
			tv.Value = &pb.TypedValue_StringVal{v}
		} else {
			return nil, fmt.Errorf("string %q contains non-UTF-8 bytes", v)
		}
''', '''		if !utf8.ValidString(v) {
			return nil, fmt.Errorf("string %q contains non-UTF-8 bytes", v)
		}
		tv.Value = &pb.TypedValue_StringVal{v}
''')]),
 ('ok-fs-return', 'C19', 'ok', [(V, '	case bool:\n		tv.Value = &pb.TypedValue_BoolVal{v}', '	case bool:\n		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: v}}, nil')]),
 # ToScalar
 ('ts-int', 'C19', 'bug', [(V, 'i = tv.GetIntVal()', 'i = int32(tv.GetIntVal())')]),
 ('ts-uint', 'C19', 'bug', [(V, 'i = tv.GetUintVal()', 'i = float64(tv.GetUintVal())')]),
 ('ts-double', 'C19', 'bug', [(V, 'i = tv.GetDoubleVal()', 'i = float32(tv.GetDoubleVal())')]),
 ('ts-uint-arm', 'C19', 'bug', [(V, 'i = tv.GetUintVal()', 'i = tv.GetIntVal()')]),
 ('ts-list-skip', 'C19', 'bug', [(V, '			ss[x] = v\n', '			if v != nil && v != "" {\n				ss[x] = v\n			}\n')]),
 ('ts-list-err', 'C19', 'bug', [(V, '				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)\n', '				continue\n')]),
 ('ts-nil', 'C19', 'bug', [(V, '	default:\n		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())\n', '	case nil:\n		return nil, nil\n	default:\n		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())\n')]),
 ('ts-panic', 'C19', 'bug', [(V, 'return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())', 'return nil, fmt.Errorf("non-scalar type %+v", tv.Value)')]),
 ('ts-decimal', 'C19', 'bug', [(V, 'float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))', 'float32(float64(d.GetDigits()) / math.Pow(10, 2))')]),
 ('ts-decimal-panic', 'C19', 'bug', [(V, 'd.GetDigits()) / math', 'd.Digits) / math')]),
 ('ts-json', 'C19', 'bug', [(V, '		v := tv.GetJsonIetfVal()\n', '		v := tv.GetJsonVal()\n')]),
 ('ok-ts-append', 'C19', 'ok', [(V, 'ss := make([]interface{}, len(elems))', 'ss := make([]interface{}, 0, len(elems))'), (V, 'for x, e := range elems {', 'for _, e := range elems {'), (V, '			ss[x] = v\n', '			ss = append(ss, v)\n')]),
 ('ok-ts-bind', 'C19', 'ok', [(V, '	switch tv.GetValue().(type) {', '	switch w := tv.GetValue().(type) {'), (V, 'i = tv.GetIntVal()', 'i = w.IntVal'), (V, 'i = tv.GetStringVal()', 'return w.StringVal, nil')]),
 ('ok-ts-json', 'C19', 'ok', [(V, '''		v := tv.GetJsonIetfVal()
		if err := json.Unmarshal(v, &i); err != nil {
			return nil, err
		}
		uVal := DeprecatedScalar{
			Message: "Deprecated TypedValue_JsonIetfVal",
			Value:   i,
		}
		return uVal, nil
''', '''		return parseJSON("Deprecated TypedValue_JsonIetfVal", tv.GetJsonIetfVal())
'''), (V, '// decimalToFloat conv', '''func parseJSON(msg string, b []byte) (interface{}, error) {
	var i interface{}
	if err := json.Unmarshal(b, &i); err != nil {
		return nil, err
	}
	return DeprecatedScalar{Message: msg, Value: i}, nil
}

// decimalToFloat conv''')]),
 # Equal
 ('eq-cross', 'C19', 'bug', [(V, '''		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
		if !ok {
			return false
		}
''', '''		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
		if !ok {
			return av.DoubleVal == float64(b.GetFloatVal())
		}
''')]),
 ('eq-nil', 'C19', 'bug', [(V, '	case *pb.TypedValue_BoolVal:\n		bv, ok := b.GetValue().(*pb.TypedValue_BoolVal)\n		if !ok {\n			return false\n		}\n		return av.BoolVal == bv.BoolVal', '	case *pb.TypedValue_BoolVal:\n		return av.BoolVal == b.GetBoolVal()')]),
 ('eq-dec-prec', 'C19', 'bug', [(V, ' && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()', '')]),
 ('eq-dec-float', 'C19', 'bug', [(V, 'av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()', 'decimalToFloat(av.DecimalVal) == decimalToFloat(bv.DecimalVal)')]),
 ('eq-dec-panic', 'C19', 'bug', [(V, 'av.DecimalVal.GetDigits() == bv', 'av.DecimalVal.Digits == bv')]),
 ('eq-float', 'C19', 'bug', [(V, 'return av.FloatVal == bv.FloatVal', 'return math.Abs(float64(av.FloatVal-bv.FloatVal)) < 1e-6')]),
 ('eq-double', 'C19', 'bug', [(V, 'return av.DoubleVal == bv.DoubleVal', 'return float32(av.DoubleVal) == float32(bv.DoubleVal)')]),
 ('eq-len', 'C19', 'bug', [(V, 'if len(ae) != len(be) {', 'if len(ae) > len(be) {')]),
 ('eq-list-first', 'C19', 'bug', [(V, 'for i := range ae {', 'for i := 1; i < len(ae); i++ {')]),
 ('eq-list-self', 'C19', 'bug', [(V, 'if !Equal(ae[i], be[i]) {', 'if !Equal(ae[i], be[len(be)-1-i]) {')]),
 ('eq-list-ptr', 'C19', 'bug', [(V, 'if !Equal(ae[i], be[i]) {\n				return false\n			}', 'if Equal(ae[i], be[i]) {\n				return true\n			}')]),
 ('eq-list-panic', 'C19', 'bug', [(V, '''		if len(ae) != len(be) {
			return false
		}
		for i := range ae {
			if !Equal(ae[i], be[i]) {
				return false
			}
		}
		return true
''', '''		for i := range ae {
			if !Equal(ae[i], be[i]) {
				return false
			}
		}
		return len(ae) == len(be)
''')]),
 ('eq-bytes-len', 'C19', 'bug', [(V, 'return string(av.BytesVal) == string(bv.BytesVal)', 'return len(av.BytesVal) == len(bv.BytesVal)')]),
 ('eq-json-any', 'C19', 'bug', [(V, '	// Types that are not primitive or ScalarArray', '	if a.GetAnyVal() != nil && b.GetAnyVal() != nil {\n		return a.GetAnyVal().TypeUrl == b.GetAnyVal().TypeUrl\n	}\n	// Types that are not primitive or ScalarArray')]),
 ('eq-fold', 'C19', 'bug', [(V, 'return av.StringVal == bv.StringVal', 'return strings.TrimSpace(av.StringVal) == strings.TrimSpace(bv.StringVal)'), (V, '	"unicode/utf8"\n', '	"strings"\n	"unicode/utf8"\n')]),
 ('eq-panic-arm', 'C19', 'bug', [(V, '		bv, ok := b.GetValue().(*pb.TypedValue_IntVal)\n		if !ok {\n			return false\n		}\n', '		bv := b.GetValue().(*pb.TypedValue_IntVal)\n')]),
 ('ok-eq-bytes', 'C19', 'ok', [(V, 'return string(av.BytesVal) == string(bv.BytesVal)', 'return bytes.Equal(av.BytesVal, bv.BytesVal)'), (V, '	"encoding/json"\n', '	"bytes"\n	"encoding/json"\n')]),
 ('ok-eq-and', 'C19', 'ok', [(V, '''		bv, ok := b.GetValue().(*pb.TypedValue_StringVal)
		if !ok {
			return false
		}
		return av.StringVal == bv.StringVal''', '''		bv, ok := b.GetValue().(*pb.TypedValue_StringVal)
		return ok && av.StringVal == bv.StringVal''')]),
 ('ok-eq-helper', 'C19', 'ok', [(V, '''		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
		if len(ae) != len(be) {
			return false
		}
		for i := range ae {
			if !Equal(ae[i], be[i]) {
				return false
			}
		}
		return true
''', '''		return equalAll(av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement())
'''), (V, '// Equal returns true', '''func equalAll(a, b []*pb.TypedValue) bool {
	if len(a) != len(b) {
		return false
	}
	for i, v := range a {
		if !Equal(v, b[i]) {
			return false
		}
	}
	return true
}

// Equal returns true''')]),
 ('ok-eq-json', 'C19', 'ok', [(V, '	// Types that are not primitive or ScalarArray', '	if av, ok := a.GetValue().(*pb.TypedValue_JsonVal); ok {\n		bv, ok := b.GetValue().(*pb.TypedValue_JsonVal)\n		return ok && string(av.JsonVal) == string(bv.JsonVal)\n	}\n	// Types that are not primitive or ScalarArray')]),
 ('ok-eq-slicesfunc', 'C19', 'ok', [(V, '''		if len(ae) != len(be) {
			return false
		}
		for i := range ae {
			if !Equal(ae[i], be[i]) {
				return false
			}
		}
		return true
''', '''		return slices.EqualFunc(ae, be, Equal)
'''), (V, '	"unicode/utf8"\n', '	"slices"\n	"unicode/utf8"\n')]),
]
