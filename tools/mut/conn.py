F='connection/connection.go'
M=[]
def b(n,*e): M.append((n,'C16','bug',[(F,o,w) for o,w in e]))
def k(n,*e): M.append((n,'C16','ok',[(F,o,w) for o,w in e]))
REF='''		c.ref++
		m.mu.Unlock()

		<-c.ready
'''
b('ref-after-wait',(REF,'''		m.mu.Unlock()

		<-c.ready
		m.mu.Lock()
		c.ref++
		m.mu.Unlock()
'''))
b('ref-other-cs',(REF,'''		m.mu.Unlock()
		m.mu.Lock()
		c.ref++
		m.mu.Unlock()

		<-c.ready
'''))
b('ref-only-new',('''			go m.dial(ctx, addr, dialer, c)
		}
		c.ref++''','''			go m.dial(ctx, addr, dialer, c)
			c.ref++
		}'''))
b('no-remove-on-fail',('''		m.remove(addr)
		c.err = err
''','''		c.err = err
'''))
b('err-after-ready',('''	defer close(c.ready)
''',''),('''		m.mu.Lock()
		m.remove(addr)
		c.err = err
		m.mu.Unlock()
		return
	}
''','''		m.mu.Lock()
		m.remove(addr)
		close(c.ready)
		c.err = err
		m.mu.Unlock()
		return
	}
	defer close(c.ready)
'''))
b('remove-after-ready',('''		m.mu.Lock()
		m.remove(addr)
		c.err = err
		m.mu.Unlock()
		return
''','''		c.err = err
		go func() {
		m.mu.Lock()
		m.remove(addr)
		m.mu.Unlock()
		}()
		return
'''))
b('no-once',('''	return func() {
		once.Do(fn)
	}''','''	_ = &once
	return fn'''))
b('close-at-one',('if c.ref <= 0 {','if c.ref <= 1 {'))
b('close-never-forget',('''	delete(m.conns, addr)
	if c.c''','''	if c.c'''))
b('no-close',('if c.c != nil {','if c.c == nil {'))
b('close-below',('if c.ref <= 0 {','if c.ref < 0 {'))
b('done-on-fail',('return nil, func() {}, c.err','return nil, c.done(m), c.err'))
b('split-release',('''		c.ref--
		if c.ref <= 0 {
			m.remove(c.id)
		}
''','''		c.ref--
		last := c.ref <= 0
		m.mu.Unlock()
		m.mu.Lock()
		if last {
			m.remove(c.id)
		}
'''))
b('ctx-wait',('''		<-c.ready
''','''		select {
		case <-c.ready:
		case <-ctx.Done():
			return nil, func() {}, ctx.Err()
		}
'''))
b('return-cc-unwaited',('''		<-c.ready
		if c.err''','''		if ok {
			<-c.ready
		}
		if c.err'''))
b('double-dial',('''		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
			go m.dial(ctx, addr, dialer, c)
		}
''','''		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
			go m.dial(ctx, addr, dialer, c)
		} else if c.err != nil {
			go m.dial(ctx, addr, dialer, c)
		}
'''))
b('unlock-before-insert',('''		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
''','''		if !ok {
			m.mu.Unlock()
			c = newConnection(addr)
			m.mu.Lock()
			m.conns[addr] = c
'''))
b('key-dialer',('''		c, ok := m.conns[addr]
		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
''','''		c, ok := m.conns[addr]
		if !ok {
			c = newConnection(addr)
			m.conns[addr+dialer] = c
'''))
b('id-lower',('''		id:    addr,''','''		id:    addr + "/",'''))
b('dial-locked-wait',('''		m.mu.Unlock()

		<-c.ready
''','''		defer m.mu.Unlock()

		<-c.ready
'''))
b('success-forget',('''	log.Infof("Created gRPC connection to %q", addr)
''','''	if ctx.Err() != nil {
		m.mu.Lock()
		delete(m.conns, addr)
		m.mu.Unlock()
	}
	log.Infof("Created gRPC connection to %q", addr)
'''))
b('cc-not-set',('''	c.c = cc
''','''	if c.ref > 0 {
		c.c = cc
	}
'''))
b('remove-unlocked',('''		m.mu.Lock()
		m.remove(addr)
		c.err = err
		m.mu.Unlock()
''','''		m.remove(addr)
		c.err = err
'''))
b('close-all',('''// remove should''','''// CloseIdle closes connections.
func (m *Manager) CloseIdle() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for a, c := range m.conns {
		if c.ref <= 1 && c.c != nil {
			c.c.Close()
			delete(m.conns, a)
		}
	}
}

// remove should'''))
b('dial-missing-close',('''	defer close(c.ready)
	d, ok := m.d[dialer]
	var err error
	if !ok {
		err = fmt.Errorf("no such dialer: %v", dialer)
	}
''','''	d, ok := m.d[dialer]
	var err error
	if !ok {
		c.err = fmt.Errorf("no such dialer: %v", dialer)
		return
	}
	defer close(c.ready)
'''))
b('nodialer-keeps',('''	var err error
	if !ok {
		err = fmt.Errorf("no such dialer: %v", dialer)
	}
''','''	var err error
	if !ok {
		c.err = fmt.Errorf("no such dialer: %v", dialer)
		return
	}
'''))
b('done-unlocked-dec',('''		m.mu.Lock()
		defer m.mu.Unlock()
		c.ref--
''','''		c.ref--
		m.mu.Lock()
		defer m.mu.Unlock()
'''))
b('refused-counted',('''	select {
	case <-ctx.Done():
		return nil, func() {}, ctx.Err()
	default:
		m.mu.Lock()
		c, ok := m.conns[addr]
		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
			go m.dial(ctx, addr, dialer, c)
		}
		c.ref++
		m.mu.Unlock()
''','''	m.mu.Lock()
	if c, ok := m.conns[addr]; ok {
		c.ref++
	}
	m.mu.Unlock()
	select {
	case <-ctx.Done():
		return nil, func() {}, ctx.Err()
	default:
		m.mu.Lock()
		c, ok := m.conns[addr]
		if !ok {
			c = newConnection(addr)
			c.ref++
			m.conns[addr] = c
			go m.dial(ctx, addr, dialer, c)
		}
		m.mu.Unlock()
'''))
# ---- behaviour kept
k('done-bool',('''	var once sync.Once
	fn := func() {
		if c == nil {
			log.Error("Attempted to call done on nil connection")
			return
		}
		m.mu.Lock()
		defer m.mu.Unlock()
''','''	released := false
	fn := func() {
		m.mu.Lock()
		defer m.mu.Unlock()
		if released {
			return
		}
		released = true
'''),('''	return func() {
		once.Do(fn)
	}''','''	return fn'''))
k('done-atomic',('''	var once sync.Once
	fn := func() {
		if c == nil {
			log.Error("Attempted to call done on nil connection")
			return
		}
''','''	var released atomic.Bool
	fn := func() {
		if !released.CompareAndSwap(false, true) {
			return
		}
'''),('''	return func() {
		once.Do(fn)
	}''','''	return fn'''),('	"sync"\n','	"sync"\n	"sync/atomic"\n'))
k('once-inline',('''	return func() {
		once.Do(fn)
	}''','''	return func() { once.Do(fn) }'''),('if c.ref <= 0 {','if c.ref < 1 {'))
k('ref-eq0',('if c.ref <= 0 {','if c.ref == 0 {'))
k('ctor-ref',('''			go m.dial(ctx, addr, dialer, c)
		}
		c.ref++''','''			c.ref = 1
			go m.dial(ctx, addr, dialer, c)
		} else {
			c.ref++
		}'''))
k('acquire-helper',('''		m.mu.Lock()
		c, ok := m.conns[addr]
		if !ok {
			c = newConnection(addr)
			m.conns[addr] = c
			go m.dial(ctx, addr, dialer, c)
		}
		c.ref++
		m.mu.Unlock()

		<-c.ready''','''		c := m.acquire(ctx, addr, dialer)

		<-c.ready'''),('''// remove should''','''func (m *Manager) acquire(ctx context.Context, addr, dialer string) *connection {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c := m.conns[addr]; c != nil {
		c.ref++
		return c
	}
	c := newConnection(addr)
	c.ref++
	m.conns[addr] = c
	go m.dial(ctx, addr, dialer, c)
	return c
}

// remove should'''))
k('dial-order',('''		m.mu.Lock()
		m.remove(addr)
		c.err = err
		m.mu.Unlock()
''','''		c.err = err
		m.mu.Lock()
		defer m.mu.Unlock()
		m.remove(addr)
'''))
k('dial-explicit-close',('''	defer close(c.ready)
''',''),('''		m.mu.Unlock()
		return
	}
''','''		m.mu.Unlock()
		close(c.ready)
		return
	}
'''),('''	c.c = cc
}''','''	c.c = cc
	close(c.ready)
}'''))
k('dial-split',('''	d, ok := m.d[dialer]
	var err error
	if !ok {
		err = fmt.Errorf("no such dialer: %v", dialer)
	}
	var cc *grpc.ClientConn
	if err == nil {
		cc, err = d(ctx, addr, m.opts...)
	}
	if err''','''	cc, err := m.open(ctx, addr, dialer)
	if err'''),('''// remove should''','''func (m *Manager) open(ctx context.Context, addr, dialer string) (*grpc.ClientConn, error) {
	d, ok := m.d[dialer]
	if !ok {
		return nil, fmt.Errorf("no such dialer: %v", dialer)
	}
	return d(ctx, addr, m.opts...)
}

// remove should'''))
k('dial-result-fields',('''	c.c = cc
''','''	c.c, c.err = cc, nil
'''))
k('ctx-err-check',('''	select {
	case <-ctx.Done():
		return nil, func() {}, ctx.Err()
	default:
		m.mu.Lock()''','''	if err := ctx.Err(); err != nil {
		return nil, func() {}, err
	}
	{
		m.mu.Lock()'''))
k('named-noop',('''	select {
	case <-ctx.Done():
		return nil, func() {}, ctx.Err()''','''	noop := func() {}
	select {
	case <-ctx.Done():
		return nil, noop, ctx.Err()'''),('''return nil, func() {}, c.err''','''return nil, noop, c.err'''))
k('remove-early-return',('''		log.Errorf("Connection %q missing or already removed", addr)
	}
''','''		log.Errorf("Connection %q missing or already removed", addr)
		return
	}
'''))
k('close-after-unlock',('''		m.mu.Lock()
		defer m.mu.Unlock()
		c.ref--
		if c.ref <= 0 {
			m.remove(c.id)
		}
''','''		m.mu.Lock()
		c.ref--
		last := c.ref <= 0
		if last {
			delete(m.conns, c.id)
		}
		m.mu.Unlock()
		if last && c.c != nil {
			c.c.Close()
		}
'''))
k('release-method',('''		m.mu.Lock()
		defer m.mu.Unlock()
		c.ref--
		if c.ref <= 0 {
			m.remove(c.id)
		}
''','''		c.release(m)
'''),('''// remove should''','''func (c *connection) release(m *Manager) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c.ref--; c.ref > 0 {
		return
	}
	m.remove(c.id)
}

// remove should'''))
k('go-closure',('''			go m.dial(ctx, addr, dialer, c)
''','''			go func() {
				m.dial(ctx, addr, dialer, c)
			}()
'''))
k('wait-helper',('''		<-c.ready
		if c.err != nil {
			return nil, func() {}, c.err
		}
''','''		if err := c.wait(); err != nil {
			return nil, func() {}, err
		}
'''),('''// remove should''','''func (c *connection) wait() error {
	<-c.ready
	return c.err
}

// remove should'''))
