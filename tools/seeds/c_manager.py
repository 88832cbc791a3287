MGRHELP = '''
package manager

import (
	"context"
	"errors"
	"io"
	"sync"
	"testing"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"google.golang.org/grpc"
)

var (
	_ = errors.New
	_ = io.EOF
	_ sync.Mutex
	_ = time.Second
	_ tpb.Target
)

type demoConns struct {
	mu       sync.Mutex
	got, rel int
}

func (d *demoConns) Connection(ctx context.Context, addr, dialer string) (*grpc.ClientConn, func(), error) {
	if err := ctx.Err(); err != nil {
		return nil, func() {}, err
	}
	d.mu.Lock()
	d.got++
	d.mu.Unlock()
	var once sync.Once
	return &grpc.ClientConn{}, func() {
		once.Do(func() {
			d.mu.Lock()
			d.rel++
			d.mu.Unlock()
		})
	}, nil
}

type demoStream struct {
	grpc.ClientStream
	recv func() (*gpb.SubscribeResponse, error)
}

func (s *demoStream) Send(*gpb.SubscribeRequest) error              { return nil }
func (s *demoStream) Recv() (*gpb.SubscribeResponse, error)         { return s.recv() }

func demoSync() *gpb.SubscribeResponse {
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}
}

type demoTrace struct {
	mu sync.Mutex
	ev []string
}

func (d *demoTrace) add(s string) {
	d.mu.Lock()
	d.ev = append(d.ev, s)
	d.mu.Unlock()
}
func (d *demoTrace) list() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]string(nil), d.ev...)
}

func demoManager(t *testing.T, tr *demoTrace, c ConnectionManager) *Manager {
	m, err := NewManager(Config{
		Connect:           func(string) { tr.add("connect") },
		Reset:             func(string) { tr.add("reset") },
		Sync:              func(string) { tr.add("sync") },
		Update:            func(string, *gpb.Notification) { tr.add("update") },
		ConnectError:      func(string, error) {},
		MonitorError:      func(string, error) {},
		ConnectionManager: c,
	})
	if err != nil {
		t.Fatal(err)
	}
	return m
}
'''
S.append(dict(id='c13-eof-no-reset', prop='C13', pkg='manager',
  edits=[('manager/manager.go', '''			if m.reset != nil {
				m.reset(ta.name)''', '''			if m.reset != nil && err != io.EOF {
				m.reset(ta.name)'''), ('manager/manager.go', '	"fmt"\n', '	"fmt"\n	"io"\n')],
  needs='a stream that the target ends cleanly (io.EOF) followed by a new session',
  breaks='Reset is not reported for a stream ended by EOF: the next Connect follows without it',
  test=MGRHELP + '''
func TestPlantedDemo(t *testing.T) {
	RetryBaseDelay = time.Millisecond
	tr := &demoTrace{}
	m := demoManager(t, tr, &demoConns{})
	orig := subscribeClient
	defer func() { subscribeClient = orig }()
	subscribeClient = func(ctx context.Context, conn *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		n := 0
		return &demoStream{recv: func() (*gpb.SubscribeResponse, error) {
			if n++; n == 1 {
				return demoSync(), nil
			}
			return nil, io.EOF
		}}, nil
	}
	if err := m.Add("t", &tpb.Target{Addresses: []string{"a"}}, validSubscribeRequest); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200 && len(tr.list()) < 7; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	m.Remove("t")
	live := false
	for i, e := range tr.list() {
		switch e {
		case "connect":
			if live {
				t.Fatalf("second Connect without a Reset at %d: %v", i, tr.list())
			}
			live = true
		case "reset":
			live = false
		}
	}
}
'''))
S.append(dict(id='c13-remove-frees-early', prop='C13', pkg='manager',
  edits=[('manager/manager.go', '''	m.mu.Lock()
	defer m.mu.Unlock()
	t, ok := m.targets[name]
	if !ok {
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	t.cancel()
''', '''	m.mu.Lock()
	t, ok := m.targets[name]
	delete(m.targets, name)
	m.mu.Unlock()
	if !ok {
		return fmt.Errorf("attempt to remove target %q that is not added", name)
	}
	t.cancel()
'''), ('manager/manager.go', '''	delete(m.targets, name)
	log.Infof("Target %q rem''', '''	log.Infof("Target %q rem''')],
  needs='Add of the same name while Remove is still waiting for the old session to end',
  breaks='two sessions of one target overlap: the old one still reports after the new one was added',
  test=MGRHELP + '''
func TestPlantedDemo(t *testing.T) {
	RetryBaseDelay = time.Millisecond
	tr := &demoTrace{}
	m := demoManager(t, tr, &demoConns{})
	orig := subscribeClient
	defer func() { subscribeClient = orig }()
	release := make(chan struct{})
	opened := make(chan struct{}, 1000)
	var mu sync.Mutex
	live, overlap := 0, false
	subscribeClient = func(ctx context.Context, conn *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		mu.Lock()
		live++
		if live > 1 {
			overlap = true
		}
		mu.Unlock()
		opened <- struct{}{}
		return &demoStream{recv: func() (*gpb.SubscribeResponse, error) {
			<-release
			mu.Lock()
			live--
			mu.Unlock()
			return nil, errors.New("gone")
		}}, nil
	}
	ta := &tpb.Target{Addresses: []string{"a"}}
	if err := m.Add("t", ta, validSubscribeRequest); err != nil {
		t.Fatal(err)
	}
	<-opened
	removed := make(chan struct{})
	go func() { m.Remove("t"); close(removed) }()
	time.Sleep(200 * time.Millisecond)
	added := make(chan struct{})
	go func() { m.Add("t", ta, validSubscribeRequest); close(added) }()
	select {
	case <-opened:
	case <-time.After(time.Second):
	}
	close(release)
	<-removed
	<-added
	m.Remove("t")
	if overlap {
		t.Fatal("the target was monitored again while its removed session was still running")
	}
}
'''))
S.append(dict(id='c13-detached-stream', prop='C13', pkg='manager',
  edits=[('manager/manager.go', '''	defer done()
	return m.subscribe(sCtx, ta, conn)''', '''	defer done()
	ended := make(chan error, 1)
	go func() { ended <- m.subscribe(sCtx, ta, conn) }()
	select {
	case err = <-ended:
	case <-sCtx.Done():
		err = sCtx.Err()
	}
	return err''')],
  needs='a session whose stream takes a moment to notice that it was cancelled, when the target is removed',
  breaks='callbacks are made after Remove returned',
  test=MGRHELP + '''
func TestPlantedDemo(t *testing.T) {
	tr := &demoTrace{}
	m := demoManager(t, tr, &demoConns{})
	orig := subscribeClient
	defer func() { subscribeClient = orig }()
	opened := make(chan struct{}, 1000)
	subscribeClient = func(ctx context.Context, conn *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		n := 0
		return &demoStream{recv: func() (*gpb.SubscribeResponse, error) {
			if n++; n == 1 {
				return demoSync(), nil
			}
			if n == 2 {
				opened <- struct{}{}
				<-ctx.Done()
				time.Sleep(300 * time.Millisecond)
				return demoSync(), nil
			}
			return nil, ctx.Err()
		}}, nil
	}
	if err := m.Add("t", &tpb.Target{Addresses: []string{"a"}}, validSubscribeRequest); err != nil {
		t.Fatal(err)
	}
	<-opened
	if err := m.Remove("t"); err != nil {
		t.Fatal(err)
	}
	before := tr.list()
	time.Sleep(time.Second)
	if after := tr.list(); len(after) != len(before) {
		t.Fatalf("callbacks after Remove returned: %v", after[len(before):])
	}
}
'''))
S.append(dict(id='c16-kept-when-cancelled', prop='C16', pkg='manager',
  edits=[('manager/manager.go', '''	defer done()
	return m.subscribe(sCtx, ta, conn)''', '''	err = m.subscribe(sCtx, ta, conn)
	if ctx.Err() == nil {
		done()
	}
	return err''')],
  needs='a session that ends because its target is removed or forcibly reconnected',
  breaks='the connection is never released: it stays open and registered for good',
  test=MGRHELP + '''
func TestPlantedDemo(t *testing.T) {
	RetryBaseDelay = time.Millisecond
	tr := &demoTrace{}
	c := &demoConns{}
	m := demoManager(t, tr, c)
	orig := subscribeClient
	defer func() { subscribeClient = orig }()
	opened := make(chan struct{}, 1000)
	subscribeClient = func(ctx context.Context, conn *grpc.ClientConn) (gpb.GNMI_SubscribeClient, error) {
		return &demoStream{recv: func() (*gpb.SubscribeResponse, error) {
			opened <- struct{}{}
			<-ctx.Done()
			return nil, ctx.Err()
		}}, nil
	}
	if err := m.Add("t", &tpb.Target{Addresses: []string{"a"}}, validSubscribeRequest); err != nil {
		t.Fatal(err)
	}
	<-opened
	m.Reconnect("t")
	<-opened
	m.Remove("t")
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.got != c.rel {
		t.Fatalf("%d connections were obtained, %d released", c.got, c.rel)
	}
}
'''))
CONHELP = '''
package connection

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials/insecure"
)

var (
	_ = errors.New
	_ = runtime.Gosched
	_ sync.Mutex
	_ atomic.Bool
	_ = connectivity.Shutdown
	_ = insecure.NewCredentials
	_ = context.Background
	_ *grpc.ClientConn
	_ = time.Second
)
'''
S.append(dict(id='c16-abandoned-wait', prop='C16', pkg='connection',
  edits=[('connection/connection.go', '''		<-c.ready
		if c.err''', '''		select {
		case <-c.ready:
		case <-ctx.Done():
			return nil, func() {}, ctx.Err()
		}
		if c.err''')],
  needs='a requester cancelled while it waits for a dial another one started, which then succeeds',
  breaks='the cancelled requester stays counted: the connection is never closed',
  test=CONHELP + '''
func TestPlantedDemo(t *testing.T) {
	started, finish := make(chan struct{}), make(chan struct{})
	dial := func(context.Context, string, ...grpc.DialOption) (*grpc.ClientConn, error) {
		close(started)
		<-finish
		return grpc.Dial("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()))
	}
	m, err := NewManagerCustom(map[string]Dial{DEFAULT: dial})
	if err != nil {
		t.Fatal(err)
	}
	type res struct {
		c    *grpc.ClientConn
		done func()
	}
	get := func(ctx context.Context) chan res {
		ch := make(chan res, 1)
		go func() {
			c, done, _ := m.Connection(ctx, "a", DEFAULT)
			ch <- res{c, done}
		}()
		return ch
	}
	a := get(context.Background())
	<-started
	ctx, cancel := context.WithCancel(context.Background())
	b := get(ctx)
	time.Sleep(200 * time.Millisecond)
	cancel()
	time.Sleep(200 * time.Millisecond)
	close(finish)
	ra, rb := <-a, <-b
	ra.done()
	rb.done()
	if s := ra.c.GetState(); s != connectivity.Shutdown {
		t.Fatalf("every holder released the connection, but it is %v", s)
	}
}
'''))
S.append(dict(id='c16-failed-entry-lingers', prop='C16', pkg='connection',
  edits=[('connection/connection.go', '''	defer close(c.ready)
	d, ok''', '''	d, ok'''), ('connection/connection.go', '''		m.mu.Lock()
		m.remove(addr)
		c.err = err
		m.mu.Unlock()
		return
	}
''', '''		c.err = err
		close(c.ready)
		m.mu.Lock()
		m.remove(addr)
		m.mu.Unlock()
		return
	}
	defer close(c.ready)
''')],
  needs='a request that follows a failed one before the dialling goroutine takes the lock',
  breaks='a request made after a dial failed is given the old failure (and a fresh entry may be removed) instead of dialling afresh',
  test=CONHELP + '''
func TestPlantedDemo(t *testing.T) {
	var dials atomic.Int64
	dial := func(_ context.Context, addr string, _ ...grpc.DialOption) (*grpc.ClientConn, error) {
		if addr == "a" {
			dials.Add(1)
		}
		return nil, errors.New("refused")
	}
	m, err := NewManagerCustom(map[string]Dial{DEFAULT: dial})
	if err != nil {
		t.Fatal(err)
	}
	var stop atomic.Bool
	defer stop.Store(true)
	for _, other := range []string{"b", "c", "d", "e"} {
		go func() {
			for !stop.Load() {
				m.Connection(context.Background(), other, DEFAULT)
			}
		}()
	}
	const n = 30000
	for i := 0; i < n; i++ {
		if _, _, err := m.Connection(context.Background(), "a", DEFAULT); err == nil {
			t.Fatal("no error")
		}
	}
	if d := dials.Load(); d != n {
		t.Fatalf("%d requests, each made after the previous one failed, dialled %d times", n, d)
	}
}
'''))
