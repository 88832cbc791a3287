# Mutants of the client library for C18.
M = []
R, C, G, T, K, D = 'client/reconnect.go', 'client/client.go', 'client/gnmi/client.go', 'client/register.go', 'client/cache.go', 'client/fake/fake.go'
def b(n, *e): M.append((n, 'C18', 'bug', list(e)))
def k(n, *e): M.append((n, 'C18', 'ok', list(e)))
DISC = '''		if p.disconnect != nil {
			p.disconnect()
		}
'''
CHK = '''		// Check if Subscribe returned because ctx was canceled.
		select {
		case <-ctx.Done():
			return ctx.Err()
		default:
		}
'''
RST = '''		if p.reset != nil {
			p.reset()
		}
'''
CLS = '''	if p.closed {
		p.cancel()
	}
'''
LOCKED = '''	subscribeDone := func() chan struct{} {
		p.mu.Lock()
		defer p.mu.Unlock()

		if p.cancel != nil {
			p.cancel()
		}
		p.closed = true

		return p.subscribeDone
	}()
'''
# reconnect: Subscribe
b('rc-no-latch', (R, CLS, ''))
b('rc-latch-unlocked', (R, CLS, ''), (R, '	ctx, done := p.initDone(ctx)\n', '	ctx, done := p.initDone(ctx)\n	if p.closed {\n		p.cancel()\n	}\n'))
b('rc-latch-early', (R, '	ctx, done := p.initDone(ctx)\n', '	p.mu.Lock()\n	closed := p.closed\n	p.mu.Unlock()\n	if closed {\n		return context.Canceled\n	}\n	ctx, done := p.initDone(ctx)\n'), (R, CLS, ''))
b('rc-latch-reset', (R, CLS, CLS + '	p.closed = false\n'))
b('rc-init-unlocked', (R, '	p.mu.Lock()\n	defer p.mu.Unlock()\n	p.subscribeDone', '	p.subscribeDone'))
b('rc-publish-ctx', (R, '	ctx, p.cancel = context.WithCancel(ctx)', '	_, p.cancel = context.WithCancel(ctx)'))
b('rc-publish-background', (R, '	ctx, p.cancel = context.WithCancel(ctx)', '	ctx, p.cancel = context.WithCancel(context.Background())'))
b('rc-attempt-callerctx', (R, '	ctx, done := p.initDone(ctx)', '	c2, done := p.initDone(ctx)\n	_ = c2'))
b('rc-done-not-deferred', (R, '	defer done()\n', '	_ = done\n'))
b('rc-done-twice', (R, '	defer done()\n', '	defer done()\n'), (R, '			return ctx.Err()\n', '			done()\n			return ctx.Err()\n'))
b('rc-done-early', (R, '	defer done()\n', '	done()\n'))
b('rc-done-late-publish', (R, '	p.subscribeDone = make(chan struct{})\n', ''), (R, '	ctx, done := p.initDone(ctx)\n', '	ctx, done := p.initDone(ctx)\n	p.mu.Lock()\n	p.subscribeDone = make(chan struct{})\n	p.mu.Unlock()\n'))
b('rc-no-disc', (R, DISC, ''))
b('rc-disc-on-error', (R, DISC, DISC.replace('p.disconnect != nil', 'p.disconnect != nil && err != nil')))
b('rc-disc-after-check', (R, DISC + '\n' + CHK, CHK + '\n' + DISC))
b('rc-disc-twice', (R, RST, DISC + RST))
b('rc-disc-go', (R, DISC, DISC.replace('			p.disc', '			go p.disc')))
b('rc-no-check', (R, CHK, ''))
b('rc-check-before-attempt', (R, CHK, ''), (R, '		start := time.Now()\n', CHK + '		start := time.Now()\n'), (R, '		err := p.Client.Sub', '		err := p.Client.Sub'))
M.pop()
b('rc-return-err', (R, CHK, CHK + '		if err == context.Canceled {\n			return err\n		}\n'))
b('rc-return-nil', (R, '		if err == nil {\n			p.backoff.Reset()', '		if err == nil {\n			if q.Type == Poll {\n				return nil\n			}\n			p.backoff.Reset()'))
b('rc-no-backoff', (R, '		time.Sleep(bo)\n', '		_ = bo\n'))
b('rc-sleep-max', (R, '		time.Sleep(bo)\n', '		time.Sleep(10 * bo)\n'))
b('rc-no-reset', (R, RST, ''))
b('rc-reset-on-err', (R, RST, RST.replace('!= nil', '!= nil && err != nil')))
b('rc-reset-before-disc', (R, RST, ''), (R, DISC, RST + DISC))
b('rc-reset-first', (R, '		start := time.Now()\n', RST + '		start := time.Now()\n'), (R, RST + '	}\n}', '	}\n}'))
b('rc-locked-attempt', (R, '		err := p.Client.Subscribe(ctx, q, clientType...)\n', '		p.mu.Lock()\n		err := p.Client.Subscribe(ctx, q, clientType...)\n		p.mu.Unlock()\n'))
b('rc-wait-ctx', (R, '		time.Sleep(bo)\n', '		<-ctx.Done()\n'))
b('rc-elapsed', (R, '	e.MaxElapsedTime = 0 // Retry Subscribe indefinitely.\n', ''))
b('rc-swapped', (R, 'disconnect: disconnect, reset: reset', 'disconnect: reset, reset: disconnect'))
# reconnect: Close
b('rx-no-latch', (R, '		p.closed = true\n', ''))
b('rx-latch-if-running', (R, '		if p.cancel != nil {\n			p.cancel()\n		}\n		p.closed = true\n', '		if p.cancel != nil {\n			p.cancel()\n			p.closed = true\n		}\n'))
b('rx-latch-if-not', (R, '		p.closed = true\n', '		p.closed = p.cancel == nil\n'))
b('rx-no-cancel', (R, '		if p.cancel != nil {\n			p.cancel()\n		}\n		p.closed', '		p.closed'))
b('rx-cancel-later', (R, '		if p.cancel != nil {\n			p.cancel()\n		}\n		p.closed', '		p.closed'), (R, '	err := p.Client.Close()\n', '	err := p.Client.Close()\n	if err == nil && p.cancel != nil {\n		p.cancel()\n	}\n'))
b('rx-two-sections', (R, LOCKED, '''	p.mu.Lock()
	cancel, subscribeDone := p.cancel, p.subscribeDone
	p.mu.Unlock()
	if cancel != nil {
		cancel()
	}
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
'''))
b('rx-unlocked', (R, '		p.mu.Lock()\n		defer p.mu.Unlock()\n\n		if p.cancel', '		if p.cancel'))
b('rx-no-inner', (R, '	err := p.Client.Close()\n', '	var err error\n'))
b('rx-inner-if-running', (R, '	err := p.Client.Close()\n', '	var err error\n	if subscribeDone == nil {\n		err = p.Client.Close()\n	}\n'))
b('rx-no-wait', (R, '		<-subscribeDone\n', '		_ = subscribeDone\n'))
b('rx-wait-nil', (R, '	if subscribeDone != nil {\n		<-subscribeDone\n	}\n', '	<-subscribeDone\n'))
b('rx-wait-first', (R, '	err := p.Client.Close()\n\n	// Wait for Subscribe to return.\n	if subscribeDone != nil {\n		<-subscribeDone\n	}\n	return err', '	if subscribeDone != nil {\n		<-subscribeDone\n	}\n	return p.Client.Close()'))
b('rx-wait-if-ok', (R, '	if subscribeDone != nil {\n', '	if err == nil && subscribeDone != nil {\n'))
b('rx-return-on-err', (R, '	err := p.Client.Close()\n', '	err := p.Client.Close()\n	if err != nil {\n		return err\n	}\n'))
b('rx-wait-locked', (R, LOCKED, '''	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cancel != nil {
		p.cancel()
	}
	p.closed = true
	subscribeDone := p.subscribeDone
'''))
# base client
b('bc-not-cleared', (C, '	c.closed = false\n', ''))
b('bc-cleared-later', (C, '	c.closed = false\n	c.mu.Unlock()\n', '	c.mu.Unlock()\n	c.mu.Lock()\n	c.closed = false\n	c.mu.Unlock()\n'))
b('bc-cleared-unlocked', (C, '	c.closed = false\n	c.mu.Unlock()\n', '	c.mu.Unlock()\n	c.closed = false\n'))
b('bc-close-noflag', (C, '	c.closed = true\n	return c.clientImpl.Close()', '	return c.clientImpl.Close()'))
b('bc-close-noimpl', (C, '	c.closed = true\n	return c.clientImpl.Close()', '	c.closed = true\n	return nil'))
b('bc-close-once', (C, '	c.closed = true\n	return c.clientImpl.Close()', '	if c.closed {\n		return nil\n	}\n	c.closed = true\n	if c.query.Type == Poll {\n		return nil\n	}\n	return c.clientImpl.Close()'))
b('bc-flag-unread', (C, '		if closed {\n			return nil\n		}\n', '		_ = closed\n'))
b('bc-flag-unlocked', (C, '		c.mu.RLock()\n		closed := c.closed\n		c.mu.RUnlock()\n', '		closed := c.closed\n'))
b('bc-flag-before', (C, '	for {\n		err := impl.Recv()\n', '	c.mu.RLock()\n	closed := c.closed\n	c.mu.RUnlock()\n	for {\n		err := impl.Recv()\n'), (C, '		c.mu.RLock()\n		closed := c.closed\n		c.mu.RUnlock()\n		if', '		if'))
b('bc-recv-locked', (C, '		err := impl.Recv()\n', '		c.mu.RLock()\n		err := impl.Recv()\n		c.mu.RUnlock()\n'))
b('bc-recv-ignored', (C, '			impl.Close()\n			return err\n		case io.EOF', '			if q := c.query.Type; q == Once {\n				impl.Close()\n				return err\n			}\n			continue\n		case io.EOF'))
b('bc-eof-continue', (C, '			return nil\n		case nil:\n', '			continue\n		case nil:\n'))
b('bc-impl-unset', (C, '	c.clientImpl = impl\n', '	if c.clientImpl == nil {\n		c.clientImpl = impl\n	}\n'))
b('bc-run-first', (C, '	return c.run(impl)\n}\n\n// Poll', '	go c.run(impl)\n	return nil\n}\n\n// Poll'))
b('bc-newimpl-ctx', (C, 'impl, err := NewImpl(ctx, q.Destination(), typ)', 'impl, err := NewImpl(context.Background(), q.Destination(), typ)'))
b('bc-subscribe-ctx', (C, 'impl.Subscribe(ctx, q); err', 'impl.Subscribe(context.TODO(), q); err'))
b('bc-subscribe-locked', (C, '	impl, err := getFirst(ctx, clientType, q, fn)\n	if err != nil {\n		return err\n	}\n\n	c.mu.Lock()\n', '	c.mu.Lock()\n	impl, err := getFirst(ctx, clientType, q, fn)\n	if err != nil {\n		c.mu.Unlock()\n		return err\n	}\n\n'))
# register
b('gf-errc-unbuffered', (T, 'errC := make(chan error, len(types))', 'errC := make(chan error)'))
b('gf-errc-one', (T, 'errC := make(chan error, len(types))', 'errC := make(chan error, 1)'))
b('gf-impl-nodone', (T, '			select {\n			case implC <- impl:\n			case <-done:\n				impl.Close()\n			}\n', '			implC <- impl\n'))
b('gf-drop', (T, '			case <-done:\n				impl.Close()\n', '			case <-done:\n'))
b('gf-wait-all', (T, 'len(errs.Errors()) == len(types)', 'len(errs.Errors()) > len(types)'))
b('gf-no-return', (T, '			if len(errs.Errors()) == len(types) {\n				return nil, errs.Err()\n			}\n', ''))
b('gf-ctx', (T, 'impl, err := fn(ctx, t, input)', 'impl, err := fn(context.Background(), t, input)'))
b('gf-err-dropped', (T, '				errC <- fmt.Errorf("client %q : %v", t, err)\n', '				if ctx.Err() == nil {\n					errC <- fmt.Errorf("client %q : %v", t, err)\n				}\n'))
# cache client
b('cc-twice', (K, '		return c.clientHandler(n)\n', '		c.clientHandler(n)\n		return c.clientHandler(n)\n'))
b('cc-not-passed', (K, '		c.Delete(v.Path)\n', '		c.Delete(v.Path)\n		return nil\n'))
b('cc-go', (K, '		return c.clientHandler(n)\n', '		go c.clientHandler(n)\n'))
b('cc-verdict', (K, '		return c.clientHandler(n)\n', '		c.clientHandler(n)\n'))
# gnmi client
b('gc-connected-late', (G, '''	if !c.connected {
		c.handler(client.Connected{})
		c.connected = true
	}

''', ''), (G, '	return nil\n}\n\n// Capabilities', '	if !c.connected {\n		c.handler(client.Connected{})\n		c.connected = true\n	}\n	return nil\n}\n\n// Capabilities'))
b('gc-connected-each', (G, '		c.connected = true\n', ''))
b('gc-connected-update-only', (G, '	if !c.connected {\n		c.handler(client.Connected{})\n		c.connected = true\n	}\n\n', ''), (G, '		n := v.Update\n', '		if !c.connected {\n			c.handler(client.Connected{})\n			c.connected = true\n		}\n		n := v.Update\n'))
b('gc-connected-none', (G, '		c.handler(client.Connected{})\n', ''))
b('gc-recv-go', (G, '	return c.recv(n)\n', '	go c.recv(n)\n	return nil\n'))
b('gc-recv-two', (G, '	return c.recv(n)\n', '	if err := c.recv(n); err != nil {\n		return err\n	}\n	n, err = c.sub.Recv()\n	if err != nil {\n		return err\n	}\n	return c.recv(n)\n'))
b('gc-recv-verdict', (G, '	return c.recv(n)\n', '	c.recv(n)\n	return nil\n'))
b('gc-recv-swallow', (G, '	n, err := c.sub.Recv()\n	if err != nil {\n		return err\n	}\n', '	n, err := c.sub.Recv()\n	if err != nil {\n		return nil\n	}\n'))
b('gc-reverse', (G, '		for _, u := range n.Update {\n', '		for i := len(n.Update) - 1; i >= 0; i-- {\n			u := n.Update[i]\n'), (G, '			u, err := noti(p, u.Path, ts, u)\n			if err != nil {\n				return err\n			}\n			c.handler(u)', '			nt, err := noti(p, u.Path, ts, u)\n			if err != nil {\n				return err\n			}\n			c.handler(nt)'))
b('gc-deletes-first', (G, '''		for _, d := range n.Delete {
			u, err := noti(p, d, ts, nil)
			if err != nil {
				return err
			}
			c.handler(u)
		}
''', ''), (G, '		for _, u := range n.Update {\n', '''		for _, d := range n.Delete {
			u, err := noti(p, d, ts, nil)
			if err != nil {
				return err
			}
			c.handler(u)
		}
		for _, u := range n.Update {
'''))
b('gc-sub-ctx', (G, 'sub, err := c.client.Subscribe(ctx)', 'sub, err := c.client.Subscribe(context.Background())'))
b('gc-dial-ctx', (G, 'context.WithTimeout(ctx, d.Timeout)', 'context.WithTimeout(context.Background(), d.Timeout)'))
b('fk-connected', (D, '	if !c.connected {\n', '	if !c.connected && c.currUpdate > 0 {\n'))
# benign
k('ok-rc-inline-init', (R, '	ctx, done := p.initDone(ctx)\n	defer done()\n', '''	p.mu.Lock()
	finished := make(chan struct{})
	p.subscribeDone = finished
	ctx, p.cancel = context.WithCancel(ctx)
	if p.closed {
		p.cancel()
	}
	p.mu.Unlock()
	defer close(finished)
'''))
k('ok-rc-err-check', (R, CHK, '		if cerr := ctx.Err(); cerr != nil {\n			return cerr\n		}\n'))
k('ok-rc-sleep-select', (R, '		time.Sleep(bo)\n', '''		timer := time.NewTimer(bo)
		select {
		case <-timer.C:
		case <-ctx.Done():
			timer.Stop()
			return ctx.Err()
		}
'''))
k('ok-rc-sleep-after', (R, '		time.Sleep(bo)\n', '''		select {
		case <-time.After(bo):
		case <-ctx.Done():
			return ctx.Err()
		}
'''))
k('ok-rc-attempt-helper', (R, '''		err := p.Client.Subscribe(ctx, q, clientType...)
''' + DISC, '		err := p.attempt(ctx, q, clientType)\n'), (R, '// initDone finishes', '''// attempt runs the inner client once.
func (p *ReconnectClient) attempt(ctx context.Context, q Query, clientType []string) error {
	defer p.notify(p.disconnect)
	return p.Client.Subscribe(ctx, q, clientType...)
}

func (p *ReconnectClient) notify(f func()) {
	if f != nil {
		f()
	}
}

// initDone finishes'''), (R, RST, '		p.notify(p.reset)\n'))
k('ok-rc-closed-early', (R, CLS, '''	if p.closed {
		p.cancel()
		return ctx, func() { close(p.subscribeDone) }
	}
'''))
k('ok-rc-type-check', (R, '''	switch q.Type {
	default:
		return fmt.Errorf("ReconnectClient used for %s query", q.Type)
	case Stream, Poll:
	}
''', '''	if q.Type != Stream && q.Type != Poll {
		return fmt.Errorf("ReconnectClient used for %s query", q.Type)
	}
'''))
k('ok-rc-nil-defaults', (R, '	return &ReconnectClient{Client: c, ', '	rc := &ReconnectClient{Client: c, '), (R, 'reset: reset}\n', 'reset: reset}\n	return rc\n'))
k('ok-rx-inline', (R, LOCKED, '''	p.mu.Lock()
	p.closed = true
	cancel, subscribeDone := p.cancel, p.subscribeDone
	p.mu.Unlock()
	if cancel != nil {
		cancel()
	}
'''))
k('ok-rx-defer-wait', (R, '	err := p.Client.Close()\n\n	// Wait for Subscribe to return.\n	if subscribeDone != nil {\n		<-subscribeDone\n	}\n	return err', '	if subscribeDone != nil {\n		defer func() { <-subscribeDone }()\n	}\n	return p.Client.Close()'))
k('ok-bc-run-if', (C, '''		switch err {
		default:
			log.V(1).Infof("impl.Recv() received unknown error: %v", err)
			impl.Close()
			return err
		case io.EOF, ErrStopReading:
			log.V(1).Infof("impl.Recv() stop marker: %v", err)
			return nil
		case nil:
		}
''', '''		if err == io.EOF || err == ErrStopReading {
			log.V(1).Info(err)
			return nil
		}
		if err != nil {
			impl.Close()
			return err
		}
'''))
k('ok-bc-isclosed', (C, '''		c.mu.RLock()
		closed := c.closed
		c.mu.RUnlock()
		if closed {
			return nil
		}
''', '''		if c.isClosed() {
			return nil
		}
'''), (C, 'func (c *BaseClient) run(', '''func (c *BaseClient) isClosed() bool {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.closed
}

func (c *BaseClient) run('''))
k('ok-bc-run-loop', (C, '	for {\n		err := impl.Recv()\n', '	for err := error(nil); !c.isClosed(); {\n		err = impl.Recv()\n'), (C, '''		c.mu.RLock()
		closed := c.closed
		c.mu.RUnlock()
		if closed {
			return nil
		}
	}
}''', '''	}
	return nil
}

func (c *BaseClient) isClosed() bool {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.closed
}'''))
k('ok-bc-install', (C, '''	c.mu.Lock()
	c.query = q
	if c.clientImpl != nil {
		c.clientImpl.Close()
	}
	c.clientImpl = impl
	c.closed = false
	c.mu.Unlock()

''', '	c.install(impl, q)\n'), (C, 'func (c *BaseClient) run(', '''func (c *BaseClient) install(impl Impl, q Query) {
	c.mu.Lock()
	defer c.mu.Unlock()
	old := c.clientImpl
	c.clientImpl, c.closed, c.query = impl, false, q
	if old != nil {
		old.Close()
	}
}

func (c *BaseClient) run('''))
k('ok-bc-close', (C, '''	if c.clientImpl == nil {
		return ErrClientInit
	}
	c.closed = true
	return c.clientImpl.Close()
''', '''	impl := c.clientImpl
	if impl == nil {
		return ErrClientInit
	}
	c.closed = true
	err := impl.Close()
	return err
'''))
k('ok-gf-counter', (T, '			errs.Add(err)\n			if len(errs.Errors()) == len(types) {\n', '			errs.Add(err)\n			if failed++; failed == len(types) {\n'), (T, '	// Look for the first', '	failed := 0\n	// Look for the first'))
k('ok-gf-ge', (T, 'len(errs.Errors()) == len(types)', 'len(errs.Errors()) >= len(types)'))
k('ok-gc-connect-helper', (G, '''	if !c.connected {
		c.handler(client.Connected{})
		c.connected = true
	}
''', '	c.announce()\n'), (G, '// Capabilities calls', '''func (c *Client) announce() {
	if c.connected {
		return
	}
	c.connected = true
	c.handler(client.Connected{})
}

// Capabilities calls'''))
k('ok-gc-split', (G, '''		n := v.Update
		p := path.ToStrings(n.Prefix, true)
		ts := time.Unix(0, n.Timestamp)
		for _, u := range n.Update {
			if u.Path == nil {
				return fmt.Errorf("invalid nil path in update: %v", u)
			}
			u, err := noti(p, u.Path, ts, u)
			if err != nil {
				return err
			}
			c.handler(u)
		}
		for _, d := range n.Delete {
			u, err := noti(p, d, ts, nil)
			if err != nil {
				return err
			}
			c.handler(u)
		}
''', '''		return c.deliver(v.Update)
'''), (G, '// Capabilities calls', '''func (c *Client) deliver(n *gpb.Notification) error {
	p := path.ToStrings(n.GetPrefix(), true)
	ts := time.Unix(0, n.GetTimestamp())
	for i := 0; i < len(n.GetUpdate()); i++ {
		u := n.GetUpdate()[i]
		if u.GetPath() == nil {
			return fmt.Errorf("invalid nil path in update: %v", u)
		}
		ev, err := noti(p, u.GetPath(), ts, u)
		if err != nil {
			return err
		}
		c.handler(ev)
	}
	for _, d := range n.GetDelete() {
		ev, err := noti(p, d, ts, nil)
		if err != nil {
			return err
		}
		c.handler(ev)
	}
	return nil
}

// Capabilities calls'''))
k('ok-gc-recv', (G, '	n, err := c.sub.Recv()\n	if err != nil {\n		return err\n	}\n	return c.recv(n)\n', '	n, err := c.sub.Recv()\n	if err == nil {\n		err = c.recv(n)\n	}\n	return err\n'))
k('ok-cc-early', (K, '	if c.clientHandler != nil {\n		return c.clientHandler(n)\n	}\n	return nil\n', '	h := c.clientHandler\n	if h == nil {\n		return nil\n	}\n	return h(n)\n'))
