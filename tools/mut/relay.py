K = 'cmd/gnmi_collector/gnmi_collector.go'
I = 'cmd/gnmi_cli/gnmi_cli.go'
G = 'client/gnmi/client.go'
CC = 'client/cache.go'
Q = 'client/query.go'
L = 'cli/cli.go'
N = 'manager/manager.go'
M = [
    ('re-noadd', 'C01', 'bug', [(K, '	c.cache.Add(id)\n', '')]),
    ('re-lateadd', 'C01', 'bug', [(K, '	c.cache.Add(id)\n', ''), (K, '''		return fmt.Errorf("Could not add target %q: %v", id, err)
	}
	return nil''', '''		return fmt.Errorf("Could not add target %q: %v", id, err)
	}
	c.cache.Add(id)
	return nil''')]),
    ('re-stop', 'C01', 'bug', [(K, '''			log.Errorf("failed to add target %q : %v", id, err)
''', '''			log.Errorf("failed to add target %q : %v", id, err)
			return
''')]),
    ('re-skip', 'C01', 'bug', [(K, '''	if t.GetDialer() == "tunnel" {
''', '''	if len(t.GetAddresses()) > 1 {
		return fmt.Errorf("too many addresses for %s", id)
	}
	if t.GetDialer() == "tunnel" {
''')]),
    ('re-latewire', 'C01', 'bug', [(K, '''	c.cache.SetClient(subscribeSrv.Update)
''', ''), (K, '''	c.start(context.Background())
''', '''	c.start(context.Background())
	c.cache.SetClient(subscribeSrv.Update)
''')]),
    ('re-twocaches', 'C01', 'bug', [(K, 'subscribe.NewServer(c.cache)', 'subscribe.NewServer(cache.New(nil))')]),
    ('re-origin', 'C01', 'bug', [(K, '''				if prefix.Origin == "" {
					prefix.Origin = "openconfig"
				}
''', '''				prefix.Origin = "openconfig"
''')]),
    ('re-originel', 'C01', 'bug', [(K, '''				if prefix.Origin == "" {
''', '''				if prefix.Origin == "" && len(prefix.GetElem()) > 0 {
''')]),
    ('re-target', 'C01', 'bug', [(K, '''				prefix.Target = target
''', '''				if prefix.Target == "" {
					prefix.Target = target
				}
''')]),
    ('re-empty', 'C01', 'bug', [(K, '''			if err := c.cache.GnmiUpdate(v); err != nil {''', '''			if len(v.GetUpdate()) == 0 {
				return
			}
			if err := c.cache.GnmiUpdate(v); err != nil {''')]),
    ('re-go', 'C01', 'bug', [(K, '''			if err := c.cache.GnmiUpdate(v); err != nil {
				if log.V(2) {
					log.Infof("dropped cache.Update(%#v): %v", v, err)
				}
			}
''', '''			go func() {
				if err := c.cache.GnmiUpdate(v); err != nil {
					if log.V(2) {
						log.Infof("dropped cache.Update(%#v): %v", v, err)
					}
				}
			}()
''')]),
    ('re-sync', 'C01', 'bug', [(K, 'Sync:              c.cache.Sync,', 'Sync:              c.cache.Connect,')]),
    ('re-file', 'C01', 'bug', [(I, '''	s, err := protoRequestFromFlags()
	if err != nil {
		return err
	}
	if s != "" {
		// Convert''', '''	s := *reqProto
	if s != "" {
		// Convert''')]),
    ('re-addrs', 'C01', 'bug', [(I, '		tq.Addrs = q.Addrs\n', '')]),
    ('re-qtype', 'C01', 'bug', [(I, 'cli.QueryType(*queryType)', 'cli.QueryType("once")')]),
    ('re-qlast', 'C01', 'bug', [(I, '		q.Queries = append(q.Queries, query)\n', '		q.Queries = []client.Path{query}\n')]),
    ('re-qtarget', 'C01', 'bug', [(Q, '	q.Target = s.Subscribe.Prefix.Target\n', '	q.Target = s.Subscribe.Prefix.Origin\n')]),
    ('re-subreq', 'C01', 'bug', [(Q, '	q.SubReq = sr\n', '''	if len(q.Queries) > 1 {
		q.SubReq = sr
	}
''')]),
    ('re-subs', 'C01', 'bug', [(Q, 's.Subscribe.Subscription {', 's.Subscribe.Subscription[1:] {')]),
    ('re-del', 'C01', 'bug', [(G, '''		for _, d := range n.Delete {
			u, err := noti(p, d, ts, nil)''', '''		for _, d := range n.Delete {
			if len(d.GetElem()) == 0 {
				continue
			}
			u, err := noti(p, d, ts, nil)''')]),
    ('re-delorder', 'C01', 'bug', [(G, '''			u, err := noti(p, d, ts, nil)''', '''			u, err := noti(nil, d, ts, nil)''')]),
    ('re-dval', 'C01', 'bug', [(G, '''		val, err := value.ToScalar(u.Val)''', '''		if u.Duplicates > 0 {
			return client.Update{Path: p, TS: ts, Dups: u.Duplicates}, nil
		}
		val, err := value.ToScalar(u.Val)''')]),
    ('re-share', 'C01', 'bug', [(G, '''	p := make([]string, 0, len(prefix)+len(sp))
	p = append(p, prefix...)
''', '''	p := prefix
''')]),
    ('re-cadd', 'C01', 'bug', [(CC, 'c.Add(v.Path, TreeVal{TS: v.TS, Val: v.Val})', '''if v.Val != nil {
			c.Add(v.Path, TreeVal{TS: v.TS, Val: v.Val})
		}''')]),
    ('re-cdel', 'C01', 'bug', [(CC, '		c.Delete(v.Path)\n', '''		if c.clientHandler == nil {
			c.Delete(v.Path)
		}
''')]),
    ('re-send', 'C01', 'bug', [(G, '	sr := q.SubReq\n	if sr == nil {', '	sr := q.SubReq\n	if sr == nil || len(q.Queries) > 0 {')]),
    ('re-walk', 'C01', 'bug', [(L, '''			b.add(path, val)
		}
		return nil
	})''', '''			if v.Val != "" {
				b.add(path, val)
			}
		}
		return nil
	})''')]),
    ('re-hdel', 'C01', 'bug', [(L, '''			display(v.Path, v.TS, v.Val)
		case client.Sync:''', '''			if v.Val != nil {
				display(v.Path, v.TS, v.Val)
			}
		case client.Sync:''')]),
    ('re-mgr', 'C01', 'bug', [(N, '''			m.update(name, v.Update)''', '''			if len(v.Update.GetUpdate()) > 0 {
				m.update(name, v.Update)
			}''')]),
    ('ok-sorted', 'C01', 'ok', [(K, '''	for id, t := range c.config.Target {
		log''', '''	ids := make([]string, 0, len(c.config.Target))
	for id := range c.config.Target {
		ids = append(ids, id)
	}
	for _, id := range ids {
		t := c.config.Target[id]
		log''')]),
    ('ok-method', 'C01', 'ok', [(K, '''		Update: func(target string, v *gnmipb.Notification) {
			// Explicitly set all updates as having come from this target even if
			// the target itself doesn't report or incorrectly reports the target
			// field. Also promote an empty origin field to 'openconfig', the default
			// origin for gNMI.
			if prefix := v.GetPrefix(); prefix == nil {
				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
			} else {
				if prefix.Origin == "" {
					prefix.Origin = "openconfig"
				}
				prefix.Target = target
			}
			if err := c.cache.GnmiUpdate(v); err != nil {
				if log.V(2) {
					log.Infof("dropped cache.Update(%#v): %v", v, err)
				}
			}
		},
''', '''		Update: c.update,
'''), (K, '''func (c *collector) start(''', '''func (c *collector) update(target string, v *gnmipb.Notification) {
	if v.Prefix == nil {
		v.Prefix = &gnmipb.Path{}
	}
	v.Prefix.Target = target
	if v.GetPrefix().GetOrigin() == "" {
		v.Prefix.Origin = "openconfig"
	}
	err := c.cache.GnmiUpdate(v)
	if err != nil && bool(log.V(2)) {
		log.Infof("dropped cache.Update(%#v): %v", v, err)
	}
}

func (c *collector) start(''')]),
    ('ok-add', 'C01', 'ok', [(K, '''	request, ok := c.config.Request[t.GetRequest()]
	if !ok {
		return fmt.Errorf("no request found for %s", id)
	}
''', '''	request := c.config.Request[t.GetRequest()]
	if request == nil {
		return fmt.Errorf("no request found for %s", id)
	}
''')]),
    ('ok-serve', 'C01', 'ok', [(K, '	go srv.Serve(lis)\n', '''	go func() {
		if err := srv.Serve(lis); err != nil {
			log.Errorf("serve: %v", err)
		}
	}()
''')]),
    ('ok-cli', 'C01', 'ok', [(I, '''	for _, path := range *queryFlag {
		query, err := parseQuery(path, cfg.Delimiter)
		if err != nil {
			return fmt.Errorf("invalid query %q : %v", path, err)
		}
		q.Queries = append(q.Queries, query)
	}
''', '''	paths := *queryFlag
	for i := 0; i < len(paths); i++ {
		query, err := parseQuery(paths[i], cfg.Delimiter)
		if err != nil {
			return fmt.Errorf("invalid query %q : %v", paths[i], err)
		}
		q.Queries = append(q.Queries, query)
	}
''')]),
    ('ok-recv', 'C01', 'ok', [(G, '''			u, err := noti(p, d, ts, nil)
			if err != nil {
				return err
			}
			c.handler(u)
''', '''			full := append(append([]string{}, p...), path.ToStrings(d, false)...)
			c.handler(client.Delete{Path: full, TS: ts})
''')]),
    ('ok-noti', 'C01', 'ok', [(G, '''	p := make([]string, 0, len(prefix)+len(sp))
	p = append(p, prefix...)
	p = append(p, sp...)
''', '''	p := append(append([]string(nil), prefix...), sp...)
''')]),
    ('ok-proto', 'C01', 'ok', [(I, '''	if *protoFile != "" {
		if *reqProto != "" {
			return "", errors.New("only one of -proto and -proto_file are allowed to be set")
		}
		b, err := os.ReadFile(*protoFile)
		if err != nil {
			return "", fmt.Errorf("could not read %q: %v", *protoFile, err)
		}
		return string(b), nil
	}
	return *reqProto, nil''', '''	switch {
	case *protoFile == "":
		return *reqProto, nil
	case *reqProto != "":
		return "", errors.New("only one of -proto and -proto_file are allowed to be set")
	}
	b, err := os.ReadFile(*protoFile)
	if err != nil {
		return "", fmt.Errorf("could not read %q: %v", *protoFile, err)
	}
	return string(b), nil''')]),
]
