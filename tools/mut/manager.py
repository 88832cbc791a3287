F='manager/manager.go'
M=[]
def b(n,p,*e): M.append((n,p,'bug',[(F,o,w) for o,w in e]))
def k(n,*e): M.append((n,'C13 C16','ok',[(F,o,w) for o,w in e]))
CONN='''		if !connected {
			if m.connect != nil {
				m.connect(ta.name)
			}
			connected = true
			log.Infof("Target %q successfully subscribed", ta.name)
		}
'''
RST='''		if err != nil {
			if m.reset != nil {
				m.reset(ta.name)
			}
			return err
		}
'''
b('connect-at-open','C13',(CONN,''),('''	connected := false
''','''	if m.connect != nil {
		m.connect(ta.name)
	}
'''))
b('connect-each','C13',('			connected = true\n',''))
b('connect-after-update','C13',(CONN,''),('''		m.testSync()
	}
}
''','''		if !connected {
			if m.connect != nil {
				m.connect(ta.name)
			}
			connected = true
		}
		m.testSync()
	}
}
'''))
b('connect-not-on-sync','C13',('		if !connected {','		if _, ok := resp.Response.(*gpb.SubscribeResponse_Update); ok && !connected {'))
b('reset-not-on-eof','C13',('''			if m.reset != nil {
				m.reset(ta.name)''','''			if m.reset != nil && !errors.Is(err, context.Canceled) {
				m.reset(ta.name)'''))
b('reset-only-connected','C13',('''			if m.reset != nil {
				m.reset(ta.name)''','''			if m.reset != nil && connected {
				m.reset(ta.name)'''))
b('reset-in-monitor-too','C13',('''			if err != nil && m.monitorError != nil {
				m.monitorError''','''			if err != nil && m.reset != nil {
				m.reset(ta.name)
			}
			if err != nil && m.monitorError != nil {
				m.monitorError'''))
b('reset-before-last','C13',('''	if err = m.handleUpdates(ctx, ta, sc); err''','''	if m.reset != nil {
		m.reset(ta.name)
	}
	if err = m.handleUpdates(ctx, ta, sc); err'''))
b('reset-in-timer','C13',('''				m.Reconnect(ta.name)
			}
		}()''','''				if m.reset != nil {
					m.reset(ta.name)
				}
				m.Reconnect(ta.name)
			}
		}()'''))
b('updates-async','C13',('''		if err := m.handleGNMIUpdate(ta.name, resp); err != nil {''','''		go m.handleGNMIUpdate(ta.name, resp)
		if err := error(nil); err != nil {'''))
b('drop-after-sync','C13',('''		if err := m.handleGNMIUpdate(ta.name, resp); err != nil {''','''		if _, ok := resp.Response.(*gpb.SubscribeResponse_SyncResponse); ok && recvTimer == nil {
			continue
		}
		if err := m.handleGNMIUpdate(ta.name, resp); err != nil {'''))
b('nil-response-no-return','C13',('''	case *gpb.SubscribeResponse_SyncResponse:
		if m.sync != nil {
			m.sync(name)
		}
''','''	case *gpb.SubscribeResponse_SyncResponse:
		if m.sync != nil && v.SyncResponse {
			m.sync(name)
		}
'''))
b('close-first','C13',('''	defer func() {
		timer.Stop()
		log.Infof("Finished monitoring %q", ta.name)
		close(ta.finished)
''','''	go func() {
		<-ctx.Done()
		close(ta.finished)
	}()
	defer func() {
		timer.Stop()
		log.Infof("Finished monitoring %q", ta.name)
'''))
b('monitorerr-after-close','C13',('''		close(ta.finished)
''','''		close(ta.finished)
		if m.monitorError != nil {
			m.monitorError(ta.name, errors.New("stopped"))
		}
'''))
b('no-close-early-return','C13',('''	defer func() {
		timer.Stop()
		log.Infof("Finished monitoring %q", ta.name)
		close(ta.finished)
		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
	}()
''','''	finish := func() {
		timer.Stop()
		log.Infof("Finished monitoring %q", ta.name)
		close(ta.finished)
		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
	}
'''),('''			// Avoid blocking on backoff timer when removing target.
			return
''','''			// Avoid blocking on backoff timer when removing target.
			finish()
			return
'''),('''			delay := e.NextBackOff()
''','''			if ctx.Err() != nil {
				return
			}
			delay := e.NextBackOff()
'''))
b('reconnect-before-close','C13',('''		close(ta.finished)
		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
''','''		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
		close(ta.finished)
'''))
b('no-subctx-renew','C13',('''				sCtx = m.reconnectCtx(ctx, ta)
			default:''','''			default:'''))
b('no-subctx-check','C13',('''			select {
			case <-sCtx.Done():
				// Create a new subcontext if the target was forcibly reconnected.
				sCtx = m.reconnectCtx(ctx, ta)
			default:
			}
''',''))
b('subctx-from-sub','C13',('''				sCtx = m.reconnectCtx(ctx, ta)
			default:''','''				sCtx = m.reconnectCtx(sCtx, ta)
			default:'''))
b('monitor-rootctx','C13',('m.monitor(sCtx, ta)','m.monitor(ctx, ta)'))
b('stream-background','C13',('subscribeClient(ctx, conn)','subscribeClient(context.Background(), conn)'))
b('subctx-background','C13',('sCtx, reconnect := context.WithCancel(ctx)','sCtx, reconnect := context.WithCancel(context.Background())'))
b('reconnect-not-set','C13',('''	t.reconnect = reconnect
''','''	if t.reconnect == nil {
		t.reconnect = reconnect
	}
'''))
b('reconnect-cancels','C13',('''	if t.reconnect != nil {
		t.reconnect()
		t.reconnect = nil
	}
''','''	if t.reconnect != nil {
		t.cancel()
		t.reconnect = nil
	}
'''))
b('maxelapsed','C13',('	e.MaxElapsedTime = 0 // Retry target connections indefinitely.\n',''))
b('give-up','C13',('''			delay := e.NextBackOff()
''','''			if errors.Is(err, ErrPending) {
				return
			}
			delay := e.NextBackOff()
'''))
b('no-delay','C13',('			timer.Reset(delay)','			timer.Reset(0)'))
b('tight-inner-retry','C13',('''			err := m.monitor(sCtx, ta)
''','''			err := m.monitor(sCtx, ta)
			if err == ErrPending {
				err = m.monitor(sCtx, ta)
			}
'''))
b('no-rearm','C13',('''			timer.Reset(delay)
''','''			if !errors.Is(err, ErrPending) {
				timer.Reset(delay)
			} else {
				timer.Reset(0)
			}
'''))
b('resubscribe','C13',('''	if err = m.handleUpdates(ctx, ta, sc); err != nil {
''','''	err = m.handleUpdates(ctx, ta, sc)
	if err == context.DeadlineExceeded {
		if sc, err = subscribeClient(ctx, conn); err == nil {
			err = m.handleUpdates(ctx, ta, sc)
		}
	}
	if err != nil {
'''))
b('recv-continue','C13',('''				m.reset(ta.name)
			}
			return err
''','''				m.reset(ta.name)
			}
			if recvTimer != nil && ctx.Err() == nil {
				connected = false
				continue
			}
			return err
'''))
b('remove-nowait','C13',('	<-t.finished\n','	go func() { <-t.finished }()\n'))
b('remove-wait-or','C13',('	<-t.finished\n','''	select {
	case <-t.finished:
	case <-time.After(time.Minute):
	}
'''))
b('remove-nocancel','C13',('	t.cancel()\n	<-t.f','	t.reconnect()\n	<-t.f'))
b('remove-nodelete','C13',('	delete(m.targets, name)\n',''))
b('remove-unlocked','C13',('''	m.mu.Lock()
	defer m.mu.Unlock()
	t, ok := m.targets[name]
	if !ok {
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	t.cancel()
''','''	m.mu.Lock()
	t, ok := m.targets[name]
	if !ok {
		m.mu.Unlock()
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	delete(m.targets, name)
	m.mu.Unlock()
	t.cancel()
'''),('''	delete(m.targets, name)
	log.Infof("Target %q rem''','''	log.Infof("Target %q rem'''))
b('remove-relock','C13',('''	defer m.mu.Unlock()
	t, ok := m.targets[name]
	if !ok {
		return fmt.Errorf("attempt''','''	t, ok := m.targets[name]
	m.mu.Unlock()
	if !ok {
		return fmt.Errorf("attempt'''),('''	delete(m.targets, name)
''','''	m.mu.Lock()
	delete(m.targets, name)
	m.mu.Unlock()
'''))
b('remove-unknown-ok','C13',('''		return fmt.Errorf("attempt to remove target %q that is not added", name)''','''		return nil'''))
b('add-nodup','C13',('''	if _, ok := m.targets[name]; ok {
		return''','''	if o, ok := m.targets[name]; ok && proto.Equal(o.t, t) {
		return'''))
b('add-dup-unlocked','C13',('''	defer m.mu.Unlock()
	m.mu.Lock()
	if _, ok := m.targets[name]; ok {
		return fmt.Errorf("target %q already added", name)
	}
''','''	m.mu.Lock()
	_, ok := m.targets[name]
	m.mu.Unlock()
	if ok {
		return fmt.Errorf("target %q already added", name)
	}
	defer m.mu.Unlock()
	m.mu.Lock()
'''))
b('add-restart','C13',('''	if _, ok := m.targets[name]; ok {
		return''','''	if o, ok := m.targets[name]; ok {
		o.cancel()
		return'''))
b('add-start-early','C13',('''	m.targets[name] = ta
	go m.retryMonitor(ctx, ta)
''','''	go m.retryMonitor(ctx, ta)
	if m.timeout < 0 {
		return errors.New("bad timeout")
	}
	m.targets[name] = ta
'''))
b('add-shared-cancel','C13',('''		cancel:         cancel,
''','''		cancel:         func() { m.Reconnect(name) },
'''),('ctx, cancel := context','ctx, _ := context'))
b('done-early','C16',('''	defer done()
	return m.subscribe(sCtx, ta, conn)''','''	defer done()
	go m.subscribe(sCtx, ta, conn)
	return nil'''))
b('done-before','C16',('''	defer done()
	return m.subscribe''','''	done()
	return m.subscribe'''))
b('done-on-live-only','C16',('''	defer done()
	return m.subscribe(sCtx, ta, conn)''','''	err = m.subscribe(sCtx, ta, conn)
	if ctx.Err() == nil {
		done()
	}
	return err'''))
b('hops-leak','C16',('''			if err == nil {
				return
			}
''','''			if err == nil && conn.GetState() != 3 {
				return
			}
'''))
b('silence-gor','C13',('''	defer done()
	return m.subscribe(sCtx, ta, conn)''','''	defer done()
	ch := make(chan error, 1)
	go func() { ch <- m.subscribe(sCtx, ta, conn) }()
	select {
	case err = <-ch:
	case <-ctx.Done():
		err = ctx.Err()
	}
	return err'''))
b('wrong-name','C13',('			m.sync(name)','			m.sync("")'))
b('timer-stop-first','C13',('''		case <-timer.C:
			select {''','''		case <-time.After(0):
			select {'''))

k('noop',('	connected := false\n','	connected := false\n	_ = connected\n'))
k('connect-helper',(CONN,'''		if !connected {
			m.reportConnect(ta)
			connected = true
		}
'''),('''// subscribeClient is''','''func (m *Manager) reportConnect(ta *target) {
	if m.connect != nil {
		m.connect(ta.name)
	}
	log.Infof("Target %q successfully subscribed", ta.name)
}

// subscribeClient is'''))
k('connected-flag-order',(CONN,'''		if !connected {
			connected = true
			log.Infof("Target %q successfully subscribed", ta.name)
			if m.connect != nil {
				m.connect(ta.name)
			}
		}
'''))
k('first-recv-split',('''	for {
		if recvTimer != nil {
			recvTimer.Reset(ta.receiveTimeout)
		}
		resp, err := sc.Recv()
		if recvTimer != nil {
			recvTimer.Stop()
		}
''','''	recv := func() (*gpb.SubscribeResponse, error) {
		if recvTimer == nil {
			return sc.Recv()
		}
		recvTimer.Reset(ta.receiveTimeout)
		defer recvTimer.Stop()
		return sc.Recv()
	}
	for {
		resp, err := recv()
'''))
k('reset-helper',(RST,'''		if err != nil {
			return m.sessionEnded(ta, err)
		}
'''),('''// subscribeClient is''','''func (m *Manager) sessionEnded(ta *target, err error) error {
	if m.reset != nil {
		m.reset(ta.name)
	}
	return err
}

// subscribeClient is'''))
k('reset-defer',(RST,'''		if err != nil {
			defer func() {
				if m.reset != nil {
					m.reset(ta.name)
				}
			}()
			return err
		}
'''))
k('reset-in-subscribe',(RST,'''		if err != nil {
			return err
		}
'''),('''	if err = m.handleUpdates(ctx, ta, sc); err != nil {
''','''	if err = m.handleUpdates(ctx, ta, sc); err != nil {
		if m.reset != nil {
			m.reset(ta.name)
		}
'''))
k('update-ifs',('''	switch v := resp.Response.(type) {
	case *gpb.SubscribeResponse_Update:
		if m.update != nil {
			m.update(name, v.Update)
		}
	case *gpb.SubscribeResponse_SyncResponse:
		if m.sync != nil {
			m.sync(name)
		}
	case *gpb.SubscribeResponse_Error:
''','''	if u, ok := resp.Response.(*gpb.SubscribeResponse_Update); ok {
		if m.update != nil {
			m.update(name, u.Update)
		}
		return nil
	}
	switch v := resp.Response.(type) {
	case *gpb.SubscribeResponse_SyncResponse:
		if m.sync == nil {
			return nil
		}
		m.sync(name)
	case *gpb.SubscribeResponse_Error:
'''))
k('update-getter',('m.update(name, v.Update)','m.update(name, resp.GetUpdate())'))
k('finish-explicit',('''	defer func() {
		timer.Stop()
		log.Infof("Finished monitoring %q", ta.name)
		close(ta.finished)
		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
	}()
''','''	defer m.finish(ta, timer)
'''),('''func (m *Manager) monitor(''','''func (m *Manager) finish(ta *target, timer *time.Timer) {
	log.Infof("Finished monitoring %q", ta.name)
	timer.Stop()
	close(ta.finished)
	m.Reconnect(ta.name)
}

func (m *Manager) monitor('''))
k('finish-defers',('''		close(ta.finished)
		// Ensure the cancelFunc for the subcontext is called.
		m.Reconnect(ta.name)
	}()
''','''	}()
	defer m.Reconnect(ta.name)
	defer close(ta.finished)
'''))
k('renew-always',('''			select {
			case <-sCtx.Done():
				// Create a new subcontext if the target was forcibly reconnected.
				sCtx = m.reconnectCtx(ctx, ta)
			default:
			}
''','''			if sCtx.Err() != nil {
				sCtx = m.reconnectCtx(ctx, ta)
			}
'''))
k('renew-helper',('''			select {
			case <-sCtx.Done():
				// Create a new subcontext if the target was forcibly reconnected.
				sCtx = m.reconnectCtx(ctx, ta)
			default:
			}
''','''			sCtx = m.ensureCtx(ctx, sCtx, ta)
'''),('''func (m *Manager) monitor(''','''func (m *Manager) ensureCtx(ctx, sCtx context.Context, ta *target) context.Context {
	select {
	case <-sCtx.Done():
		return m.reconnectCtx(ctx, ta)
	default:
	}
	return sCtx
}

func (m *Manager) monitor('''))
k('attempt-helper',('''			t0 := time.Now()
			err := m.monitor(sCtx, ta)
			if err != nil && m.monitorError != nil {
				m.monitorError(ta.name, err)
			}
			if time.Since(t0) > 2*RetryMaxDelay {
				e.Reset()
			}
			delay := e.NextBackOff()
			log.Errorf("Retrying monitoring of %q in %v due to error: %v", ta.name, delay, err)
			timer.Reset(delay)
''','''			timer.Reset(m.attempt(sCtx, ta, e))
'''),('''func (m *Manager) monitor(''','''func (m *Manager) attempt(ctx context.Context, ta *target, e *backoff.ExponentialBackOff) time.Duration {
	start := time.Now()
	err := m.monitor(ctx, ta)
	if m.monitorError != nil && err != nil {
		m.monitorError(ta.name, err)
	}
	if time.Since(start) > 2*RetryMaxDelay {
		e.Reset()
	}
	d := e.NextBackOff()
	log.Errorf("Retrying monitoring of %q in %v due to error: %v", ta.name, d, err)
	return d
}

func (m *Manager) monitor('''))
k('after-channel',('''	timer := time.NewTimer(0)

''','''	wait := time.After(0)

'''),('		timer.Stop()\n',''),('''		case <-timer.C:
			select {''','''		case <-wait:
			select {'''),('			timer.Reset(delay)','			wait = time.After(delay)'))
k('loop-check',('''		select {
		case <-ctx.Done():
			// Avoid blocking on backoff timer when removing target.
			return
		case <-timer.C:
			select {''','''		if ctx.Err() != nil {
			return
		}
		select {
		case <-ctx.Done():
			// Avoid blocking on backoff timer when removing target.
			return
		case <-timer.C:
			select {'''))
k('subscribe-inline-done',('''	defer done()
	return m.subscribe(sCtx, ta, conn)''','''	err = m.subscribe(sCtx, ta, conn)
	done()
	return err'''))
k('done-twice',('''	defer done()
	return m.subscribe(sCtx, ta, conn)''','''	defer done()
	err = m.subscribe(sCtx, ta, conn)
	done()
	return err'''))
k('ctx-err',('''	select {
	case <-ctx.Done():
		return ctx.Err()
	default:
	}

	log.Infof("Attempting to open''','''	if err := ctx.Err(); err != nil {
		return err
	}

	log.Infof("Attempting to open'''))
k('createconn-err',('''		select {
		case <-ctx.Done():
			return nil, func() {}, ctx.Err()
		default:
			connCtx := ctx
			if m.timeout > 0 {
				c, cancel := context.WithTimeout(ctx, m.timeout)
				connCtx = c
				defer cancel()
			}
			conn, done, err = m.connectionManager.Connection(connCtx, nh, t.GetDialer())
			if err == nil {
				return
			}
		}
''','''		if err := ctx.Err(); err != nil {
			return nil, func() {}, err
		}
		if conn, done, err = m.dialHop(ctx, nh, t); err == nil {
			return conn, done, nil
		}
'''),('''func (m *Manager) handleUpdates(''','''func (m *Manager) dialHop(ctx context.Context, nh string, t *tpb.Target) (*grpc.ClientConn, func(), error) {
	if m.timeout > 0 {
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, m.timeout)
		defer cancel()
	}
	return m.connectionManager.Connection(ctx, nh, t.GetDialer())
}

func (m *Manager) handleUpdates('''))
k('remove-explicit',('''	m.mu.Lock()
	defer m.mu.Unlock()
	t, ok := m.targets[name]
	if !ok {
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	t.cancel()
	<-t.finished
	delete(m.targets, name)
''','''	m.mu.Lock()
	defer m.mu.Unlock()
	t := m.targets[name]
	if t == nil {
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	t.stop()
	delete(m.targets, name)
'''),('''// reconnectCtx creates''','''func (t *target) stop() {
	t.cancel()
	<-t.finished
}

// reconnectCtx creates'''))
k('remove-recheck',('''	defer m.mu.Unlock()
	t, ok := m.targets[name]
	if !ok {
		return fmt.Errorf("attempt''','''	t, ok := m.targets[name]
	m.mu.Unlock()
	if !ok {
		return fmt.Errorf("attempt'''),('''	delete(m.targets, name)
''','''	m.mu.Lock()
	if m.targets[name] == t {
		delete(m.targets, name)
	}
	m.mu.Unlock()
'''))
k('add-order',('''	defer m.mu.Unlock()
	m.mu.Lock()
	if _, ok := m.targets[name]; ok {
		return fmt.Errorf("target %q already added", name)
	}
	if len(t.GetAddresses()) == 0 {
		return fmt.Errorf("no addresses for target %q", name)
	}
''','''	if len(t.GetAddresses()) == 0 {
		return fmt.Errorf("no addresses for target %q", name)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if _, dup := m.targets[name]; dup {
		return fmt.Errorf("target %q already added", name)
	}
'''))
k('add-newtarget',('''	ta := &target{
		name:           name,
		t:              t,
		sr:             sr,
		cancel:         cancel,
		finished:       make(chan struct{}),
		receiveTimeout: m.targetRecvTimeout(name, t),
	}
	m.targets[name] = ta
''','''	ta := m.newTarget(name, t, sr)
	ta.cancel = cancel
	m.targets[name] = ta
'''),('''// Remove stops the''','''func (m *Manager) newTarget(name string, t *tpb.Target, sr *gpb.SubscribeRequest) *target {
	return &target{
		name:           name,
		t:              t,
		sr:             sr,
		finished:       make(chan struct{}),
		receiveTimeout: m.targetRecvTimeout(name, t),
	}
}

// Remove stops the'''))
k('reconnect-defer',('''	t.mu.Lock()
	if t.reconnect != nil {
		t.reconnect()
		t.reconnect = nil
	}
	t.mu.Unlock()
	return nil''','''	t.mu.Lock()
	defer t.mu.Unlock()
	if t.reconnect == nil {
		return nil
	}
	t.reconnect()
	t.reconnect = nil
	return nil'''))
k('reconnect-outside',('''	t.mu.Lock()
	if t.reconnect != nil {
		t.reconnect()
		t.reconnect = nil
	}
	t.mu.Unlock()
	return nil''','''	t.mu.Lock()
	f := t.reconnect
	t.reconnect = nil
	t.mu.Unlock()
	if f != nil {
		f()
	}
	return nil'''))
k('timeout-helper',('''		go func() {
			select {
			case <-ctx.Done():
			case <-recvTimer.C:
				log.Errorf("Timed out waiting to receive from %q after %v", ta.name, ta.receiveTimeout)
				m.Reconnect(ta.name)
			}
		}()
''','''		go m.watch(ctx, ta, recvTimer)
'''),('''// subscribeClient is''','''func (m *Manager) watch(ctx context.Context, ta *target, t *time.Timer) {
	select {
	case <-ctx.Done():
		return
	case <-t.C:
	}
	log.Errorf("Timed out waiting to receive from %q after %v", ta.name, ta.receiveTimeout)
	m.Reconnect(ta.name)
}

// subscribeClient is'''))
k('monitor-split-err',('''	meta, err := gRPCMeta(ctx, ta.name, ta.t, m.cred)
	if err != nil {
		return fmt.Errorf("error creating gRPC metadata for %q: %v", ta.name, err)
	}
	sCtx := metadata.NewOutgoingContext(ctx, meta)
''','''	sCtx, err := m.outgoing(ctx, ta)
	if err != nil {
		return err
	}
'''),('''func (m *Manager) targetRecvTimeout(''','''func (m *Manager) outgoing(ctx context.Context, ta *target) (context.Context, error) {
	meta, err := gRPCMeta(ctx, ta.name, ta.t, m.cred)
	if err != nil {
		return nil, fmt.Errorf("error creating gRPC metadata for %q: %v", ta.name, err)
	}
	return metadata.NewOutgoingContext(ctx, meta), nil
}

func (m *Manager) targetRecvTimeout('''))
