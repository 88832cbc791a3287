# Mutants of target.Config for C17.
M = []
F = 'target/target.go'
def b(n, *e): M.append((n, 'C17', 'bug', [(F,) + x for x in e]))
def k(n, *e): M.append((n, 'C17', 'ok', [(F,) + x for x in e]))

CHK = '''	if err := c.checkRevision(config); err != nil {
		return err
	}
'''
VAL = '''	if err := Validate(config); err != nil {
		return fmt.Errorf("invalid configuration: %v", err)
	}

	c.mu.Lock()'''
STORE = '''	c.configuration = proto.Clone(config).(*pb.Configuration)

	return nil'''
LOOP2 = '''		nt := newTargets[k]
		switch {
		case nt == nil:
			if c.h.Delete != nil {
				c.h.Delete(k)
			}
		case !requestChanged[t.GetRequest()] && proto.Equal(t, nt):
			delete(newTargets, k)
		default:
			if c.h.Update != nil {
				r := config.GetRequest()[nt.GetRequest()]
				c.h.Update(Update{
					Name:    k,
					Request: r,
					Target:  nt,
				})
			}
			delete(newTargets, k)
		}
'''
# ---- gate
b('cfg-no-revision', (CHK, '	_ = c.checkRevision\n'))
b('cfg-revision-lt', ('case cf.Revision <= c.conf', 'case cf.Revision < c.conf'))
b('cfg-revision-reversed', ('case cf.Revision <= c.configuration.GetRevision():', 'case c.configuration.GetRevision() <= cf.Revision:'))
b('cfg-revision-eq-only', ('case cf.Revision <= c.configuration.GetRevision():', 'case cf.Revision == c.configuration.GetRevision():'))
b('cfg-revision-zero-passes', ('case cf.Revision <= c.configuration.GetRevision():', 'case cf.Revision != 0 && cf.Revision <= c.configuration.GetRevision():'))
b('cfg-revision-not-first', ('	case c.configuration == nil:\n		return nil\n', '	case len(c.configuration.GetTarget()) == 0:\n		return nil\n'))
b('cfg-check-unlocked', ('	c.mu.Lock()\n	defer c.mu.Unlock()\n' + CHK, CHK + '	c.mu.Lock()\n	defer c.mu.Unlock()\n'))
b('cfg-two-sections', ('	c.mu.Lock()\n	defer c.mu.Unlock()\n' + CHK, '	c.mu.Lock()\n	err := c.checkRevision(config)\n	c.mu.Unlock()\n	if err != nil {\n		return err\n	}\n	c.mu.Lock()\n	defer c.mu.Unlock()\n'))
b('cfg-no-validate', (VAL, '	c.mu.Lock()'))
b('cfg-validate-old', (VAL, VAL.replace('Validate(config)', 'Validate(c.Current())')))
b('cfg-validate-late', (VAL, '	c.mu.Lock()'), (STORE, '''	if err := Validate(config); err != nil {
		return err
	}
''' + STORE))
b('cfg-validate-ignored', (VAL, VAL.replace('		return fmt.Errorf("invalid configuration: %v", err)', '		_ = fmt.Errorf("invalid configuration: %v", err)')))
b('cfg-refuse-empty', (VAL, '	if len(config.Target) == 0 {\n		return errors.New("empty")\n	}\n' + VAL))
b('cfg-unlock-missing', ('	defer c.mu.Unlock()\n' + CHK, CHK), (STORE, STORE.replace('return nil', 'c.mu.Unlock()\n	return nil')))
# ---- store
b('cfg-store-first', ('	// Diff before setting new state.\n	c.handleDiffs(config)\n', ''), (STORE, STORE.replace('\n\n', '\n	c.handleDiffs(config)\n')))
b('cfg-store-alias', (STORE, STORE.replace('proto.Clone(config).(*pb.Configuration)', 'config')))
b('cfg-store-missing', (STORE, '	if len(config.Target) > 0 {\n		c.configuration = proto.Clone(config).(*pb.Configuration)\n	}\n	return nil'))
b('cfg-store-before-check', (CHK, '	old := c.configuration\n	c.configuration = proto.Clone(config).(*pb.Configuration)\n	c.configuration, old = old, c.configuration\n' + CHK))
b('cfg-merge', (STORE, '''	if c.configuration != nil {
		for k, r := range c.configuration.Request {
			if _, ok := config.Request[k]; !ok {
				config.Request[k] = r
			}
		}
	}
''' + STORE))
b('cfg-current-alias', ('return proto.Clone(c.configuration).(*pb.Configuration)', 'return c.configuration'))
b('cfg-current-unlocked', ('	c.mu.Lock()\n	defer c.mu.Unlock()\n	return proto.Clone', '	return proto.Clone'))
b('cfg-base-alias', ('		config = proto.Clone(config).(*pb.Configuration)\n', ''))
b('cfg-base-novalid', ('''		if err := Validate(config); err != nil {
			return nil, fmt.Errorf("invalid configuration: %v", err)
		}
	}
	if''', '	}\n	if'))
b('cfg-base-dropped', ('		configuration: config,\n', ''))
# ---- diff
b('cfg-request-ignored', ('case !requestChanged[t.GetRequest()] && proto', 'case proto'))
b('cfg-target-ignored', ('!requestChanged[t.GetRequest()] && proto.Equal(t, nt)', '!requestChanged[t.GetRequest()] && t.GetRequest() == nt.GetRequest()'))
b('cfg-changed-new-name-or', ('!requestChanged[t.GetRequest()] && proto.Equal(t, nt)', '!requestChanged[t.GetRequest()] || proto.Equal(t, nt)'))
b('cfg-update-oldtarget', ('					Target:  nt,\n', '					Target:  t,\n'))
b('cfg-update-oldrequest', ('r := config.GetRequest()[nt.GetRequest()]', 'r := c.configuration.GetRequest()[nt.GetRequest()]'))
b('cfg-update-oldname', ('r := config.GetRequest()[nt.GetRequest()]', 'r := config.GetRequest()[t.GetRequest()]'))
b('cfg-no-delete', ('				c.h.Delete(k)\n', '				_ = k\n'))
b('cfg-delete-when-changed', ('			if c.h.Update != nil {\n', '			c.h.Delete(k)\n			if c.h.Update != nil {\n'))
b('cfg-unchanged-not-removed', ('proto.Equal(t, nt):\n			delete(newTargets, k)\n', 'proto.Equal(t, nt):\n'))
b('cfg-updated-not-removed', ('				})\n			}\n			delete(newTargets, k)\n', '				})\n			}\n'))
b('cfg-update-as-add', ('				c.h.Update(Update{\n', '				c.h.Add(Update{\n'))
b('cfg-add-no-request', ('				Request: r,\n				Target:  t,\n', '				Request: nil,\n				Target:  t,\n			})\n			_ = r\n			_ = (Update{\n'))
b('cfg-add-wrong-request', ('r := config.GetRequest()[t.GetRequest()]\n		if c.h.Add', 'r := config.GetRequest()[k]\n		if c.h.Add'))
b('cfg-add-skips-first', ('	for k, t := range newTargets {\n', '	if c.configuration == nil {\n		return\n	}\n	for k, t := range newTargets {\n'))
b('cfg-add-only-when-addresses', ('	for k, t := range newTargets {\n', '	for k, t := range newTargets {\n		if t.GetCredentials() == nil {\n			continue\n		}\n'))
b('cfg-delete-break', ('				c.h.Delete(k)\n			}\n', '				c.h.Delete(k)\n			}\n			return\n'))
b('cfg-request-reversed', ('			if !proto.Equal(old, new) {', '			if proto.Equal(old, new) {'))
b('cfg-request-swap', ('requestChanged[t.GetRequest()] && proto', 'requestChanged[k] && proto'))
b('cfg-request-by-subscribe', ('			if !proto.Equal(old, new) {', '			if !proto.Equal(old.GetSubscribe(), new.GetSubscribe()) {'))
b('cfg-handlers-async', ('				c.h.Delete(k)\n', '				go c.h.Delete(k)\n'))
# ---- Validate
b('val-no-addresses', ('		if len(target.Addresses) == 0 {', '		if target.Addresses == nil && name == "*" {'))
b('val-no-request', ('		if _, ok := config.Request[target.Request]; !ok {', '		if _, ok := config.Request[name]; !ok && false {'))
b('val-request-by-name', ('config.Request[target.Request]; !ok', 'config.Request[name]; !ok'))
b('val-empty-name', ('		if name == "" {', '		if name == "-" {'))
b('val-nil-target', ('		if target == nil {\n			return fmt.Errorf("missing target configuration for %q", name)\n		}\n', '		if target == nil {\n			continue\n		}\n'))
b('val-returns-early', ('missing request %q for target %q", target.Request, name)\n		}\n', 'missing request %q for target %q", target.Request, name)\n		}\n		return nil\n'))
b('val-one-address', ('		if len(target.Addresses) == 0 {', '		if len(target.Addresses) <= 1 {'))
# ---- benign
k('ok-cfg-explicit-unlock', ('	defer c.mu.Unlock()\n' + CHK, CHK.replace('		return err', '		c.mu.Unlock()\n		return err')), (STORE, STORE.replace('return nil', 'c.mu.Unlock()\n	return nil')))
k('ok-cfg-inline-check', (CHK, '''	if c.configuration != nil && c.configuration.GetRevision() >= config.GetRevision() {
		return fmt.Errorf("revision %v is not newer", config.GetRevision())
	}
'''))
k('ok-cfg-validate-locked', (VAL, '	c.mu.Lock()'), (CHK, VAL.replace('\n\n	c.mu.Lock()', '\n') + CHK))
k('ok-cfg-check-first', (VAL, '	c.mu.Lock()'), (CHK, CHK + VAL.replace('\n\n	c.mu.Lock()', '\n')))
k('ok-cfg-clone-first', ('	// Diff before setting new state.\n	c.handleDiffs(config)\n', '	config = proto.Clone(config).(*pb.Configuration)\n	c.handleDiffs(config)\n'), (STORE, STORE.replace('proto.Clone(config).(*pb.Configuration)', 'config')))
k('ok-cfg-clonehelper', ('// Validate confirms', 'func deepCopy(m *pb.Configuration) *pb.Configuration {\n	return proto.Clone(m).(*pb.Configuration)\n}\n\n// Validate confirms'), (STORE, STORE.replace('proto.Clone(config).(*pb.Configuration)', 'deepCopy(config)')))
k('ok-cfg-old-param', ('	c.handleDiffs(config)\n', '	old := c.configuration\n	c.handleDiffs(old, config)\n'), ('func (c *Config) handleDiffs(config *pb.Configuration) {', 'func (c *Config) handleDiffs(old, config *pb.Configuration) {'), ('if old, ok := c.configuration.GetRequest()[k]; ok {\n			if !proto.Equal(old, new)', 'if prev, ok := old.GetRequest()[k]; ok {\n			if !proto.Equal(prev, new)'), ('range c.configuration.GetTarget()', 'range old.GetTarget()'))
k('ok-cfg-switch-lookup', (LOOP2, '''		nt, ok := newTargets[k]
		if !ok {
			c.deleted(k)
			continue
		}
		delete(newTargets, k)
		if !requestChanged[t.GetRequest()] && proto.Equal(t, nt) {
			continue
		}
		c.changed(k, nt, config)
'''), ('// Validate confirms', '''func (c *Config) deleted(k string) {
	if c.h.Delete != nil {
		c.h.Delete(k)
	}
}

func (c *Config) changed(k string, nt *pb.Target, config *pb.Configuration) {
	if c.h.Update == nil {
		return
	}
	c.h.Update(c.update(k, nt, config))
}

func (c *Config) update(k string, t *pb.Target, config *pb.Configuration) Update {
	return Update{Name: k, Target: t, Request: config.GetRequest()[t.GetRequest()]}
}

// Validate confirms'''))
k('ok-cfg-no-requestchanged', ('''	requestChanged := map[string]bool{}
	for k, new := range config.Request {
		if old, ok := c.configuration.GetRequest()[k]; ok {
			if !proto.Equal(old, new) {
				requestChanged[k] = true
			}
		}
	}
''', '	oldReq, newReq := c.configuration.GetRequest(), config.GetRequest()\n'), ('case !requestChanged[t.GetRequest()] && proto.Equal(t, nt)', 'case proto.Equal(t, nt) && proto.Equal(oldReq[t.GetRequest()], newReq[nt.GetRequest()])'))
k('ok-cfg-seen-set', ('''	newTargets := make(map[string]*pb.Target)
	for k, t := range config.GetTarget() {
		newTargets[k] = t
	}
''', '	newTargets := config.GetTarget()\n	seen := make(map[string]bool)\n'), ('case !requestChanged[t.GetRequest()] && proto.Equal(t, nt):\n			delete(newTargets, k)\n', 'case !requestChanged[t.GetRequest()] && proto.Equal(t, nt):\n			seen[k] = true\n'), ('				})\n			}\n			delete(newTargets, k)\n', '				})\n			}\n			seen[k] = true\n'), ('	for k, t := range newTargets {\n', '	for k, t := range newTargets {\n		if seen[k] {\n			continue\n		}\n'))
k('ok-cfg-new-first', (LOOP2, '''		if _, ok := config.GetTarget()[k]; !ok {
			if c.h.Delete != nil {
				c.h.Delete(k)
			}
		}
		_ = t
'''), ('''	for k, t := range newTargets {
		r := config.GetRequest()[t.GetRequest()]
		if c.h.Add != nil {
			c.h.Add(''', '''	for k, t := range newTargets {
		r := config.GetRequest()[t.GetRequest()]
		if o, ok := c.configuration.GetTarget()[k]; ok {
			if requestChanged[t.GetRequest()] || !proto.Equal(o, t) {
				if c.h.Update != nil {
					c.h.Update(Update{Name: k, Request: r, Target: t})
				}
			}
			continue
		}
		if c.h.Add != nil {
			c.h.Add('''))
k('ok-cfg-lists', ('	for k, t := range newTargets {\n', '''	names := make([]string, 0, len(newTargets))
	for k := range newTargets {
		names = append(names, k)
	}
	_ = names
	for k, t := range newTargets {
'''))
k('ok-val-helper', ('''		if len(target.Addresses) == 0 {
			return fmt.Errorf("target %q missing address", name)
		}
		if target.Request == "" {
			return fmt.Errorf("target %q missing request", name)
		}
		if _, ok := config.Request[target.Request]; !ok {
			return fmt.Errorf("missing request %q for target %q", target.Request, name)
		}
	}
	return nil
}''', '''		if err := validateTarget(name, target, config.GetRequest()); err != nil {
			return err
		}
	}
	return nil
}

func validateTarget(name string, target *pb.Target, reqs map[string]*gpb.SubscribeRequest) error {
	switch r := target.GetRequest(); {
	case len(target.GetAddresses()) == 0:
		return fmt.Errorf("target %q missing address", name)
	case r == "":
		return fmt.Errorf("target %q missing request", name)
	default:
		if _, ok := reqs[r]; !ok {
			return fmt.Errorf("missing request %q for target %q", r, name)
		}
	}
	return nil
}'''))
k('ok-val-collect', ('	for name, target := range config.Target {\n		if name == "" {\n			return errors.New("target with empty name")\n		}\n', '	if _, ok := config.GetTarget()[""]; ok {\n		return errors.New("target with empty name")\n	}\n	for name, target := range config.Target {\n'))
k('ok-val-reorder', ('''		if name == "" {
			return errors.New("target with empty name")
		}
		if target == nil {
			return fmt.Errorf("missing target configuration for %q", name)
		}
''', '''		if target == nil {
			return fmt.Errorf("missing target configuration for %q", name)
		}
		if len(name) == 0 {
			return errors.New("target with empty name")
		}
'''))
