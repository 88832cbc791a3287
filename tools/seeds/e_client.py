CLIHELP = '''
package client

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"
)

var (
	_ sync.Mutex
	_ = errors.New
)

// demoImpl delivers msgs, then blocks until it is closed.
type demoImpl struct {
	q      Query
	n      int
	msgs   int
	each   func(int)
	once   sync.Once
	closed chan struct{}
	ctx    context.Context // set if a cancelled context ends Recv
	obey   bool
}

func (d *demoImpl) Subscribe(ctx context.Context, q Query) error {
	d.q = q
	if d.ctx = ctx; !d.obey {
		d.ctx = context.Background()
	}
	return nil
}
func (d *demoImpl) Recv() error {
	if d.n < d.msgs {
		d.n++
		d.q.NotificationHandler(Update{Path: Path{"a"}, Val: d.n, TS: time.Now()})
		if d.each != nil {
			d.each(d.n)
		}
		return nil
	}
	select {
	case <-d.closed:
	case <-d.ctx.Done():
	}
	return errors.New("closed")
}
func (d *demoImpl) Close() error { d.once.Do(func() { close(d.closed) }); return nil }
func (d *demoImpl) Poll() error  { return nil }

func demoReg(d *demoImpl) {
	RegisterTest("demo", func(context.Context, Destination) (Impl, error) { return d, nil })
}

func demoQuery(h NotificationHandler) Query {
	return Query{Addrs: []string{"x"}, Target: "t", Queries: []Path{{"a"}}, Type: Stream, NotificationHandler: h}
}

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	c := make(chan struct{})
	go func() { f(); close(c) }()
	select {
	case <-c:
	case <-time.After(d):
		t.Fatalf("%s did not return within %v", what, d)
	}
}
'''
RC = 'client/reconnect.go'
S.append(dict(id='c18-latch-split', prop='C18', pkg='client',
  edits=[(RC, '''	p.mu.Lock()
	defer p.mu.Unlock()
	p.subscribeDone = make(chan struct{})

	// ctx is cancelled in p.Close().
	ctx, p.cancel = context.WithCancel(ctx)

	// If Close was called before initDone returned, it didn't have a cancel
	// func to trigger. Trigger it here instead.
	// Since initDone and Cancel are synchronizing on p.mu, either this or
	// Close will call p.cancel(), preventing a hanging client.
	if p.closed {
		p.cancel()
	}
''', '''	p.mu.Lock()
	closed := p.closed
	p.mu.Unlock()

	// ctx is cancelled in p.Close(). Deriving from a caller's context may call
	// back into it, do not hold p.mu for that.
	ctx, cancel := context.WithCancel(ctx)

	// If Close was called before initDone returned, it didn't have a cancel
	// func to trigger. Trigger it here instead.
	if closed {
		cancel()
	}
	p.mu.Lock()
	p.cancel = cancel
	p.subscribeDone = make(chan struct{})
	p.mu.Unlock()
''')],
  needs='Close running between the moment Subscribe looks at the close flag and the moment it publishes its cancel function',
  breaks='check of the close latch and publication of cancel are two critical sections: a Close in between cancels nothing, Subscribe never ends',
  test=CLIHELP + '''
type hookCtx struct {
	context.Context
	once sync.Once
	f    func()
}

func (h *hookCtx) Done() <-chan struct{} {
	h.once.Do(h.f)
	return h.Context.Done()
}

func (h *hookCtx) Value(k any) any {
	h.once.Do(h.f)
	return h.Context.Value(k)
}

func TestPlantedDemo(t *testing.T) {
	d := &demoImpl{closed: make(chan struct{}), obey: true}
	demoReg(d)
	rc := Reconnect(&BaseClient{}, nil, nil)
	parent, stop := context.WithCancel(context.Background())
	defer stop()
	ended := make(chan struct{})
	ctx := &hookCtx{Context: parent, f: func() {
		go func() { rc.Close(); close(ended) }()
		select {
		case <-ended:
		case <-time.After(200 * time.Millisecond):
		}
	}}
	within(t, 5*time.Second, "Subscribe", func() { rc.Subscribe(ctx, demoQuery(func(Notification) error { return nil }), "demo") })
	within(t, 5*time.Second, "Close", func() { <-ended })
}
'''))
S.append(dict(id='c18-wait-before-close', prop='C18', pkg='client',
  edits=[(RC, '''	err := p.Client.Close()

	// Wait for Subscribe to return.
	if subscribeDone != nil {
		<-subscribeDone
	}
	return err
''', '''	// Wait for Subscribe to return.
	if subscribeDone != nil {
		<-subscribeDone
	}
	return p.Client.Close()
''')],
  needs='Close while the stream is idle, with an implementation whose Recv only ends when it is closed',
  breaks='Close waits for Subscribe to end before closing the stream Subscribe is blocked on: both hang',
  test=CLIHELP + '''
func TestPlantedDemo(t *testing.T) {
	d := &demoImpl{closed: make(chan struct{}), msgs: 1}
	demoReg(d)
	rc := Reconnect(&BaseClient{}, nil, nil)
	got := make(chan struct{}, 10)
	ended := make(chan struct{})
	go func() {
		rc.Subscribe(context.Background(), demoQuery(func(Notification) error { got <- struct{}{}; return nil }), "demo")
		close(ended)
	}()
	<-got
	time.Sleep(100 * time.Millisecond)
	within(t, 5*time.Second, "Close", func() { rc.Close() })
	within(t, 5*time.Second, "Subscribe", func() { <-ended })
}
'''))
S.append(dict(id='c18-reset-on-error', prop='C18', pkg='client',
  edits=[(RC, "		if p.reset != nil {\n", "		if p.reset != nil && (err != nil || bo > RetryBaseDelay) {\n")],
  needs='a stream that the server ends cleanly (EOF) after a backoff reset, so that the next retry is quick',
  breaks='a retry after a cleanly ended stream is not announced by the reset callback: stale state is kept',
  test=CLIHELP + '''
func TestPlantedDemo(t *testing.T) {
	RetryBaseDelay = time.Millisecond
	RetryRandomization = 0
	attempts := 0
	resets, discs := 0, 0
	var rc *ReconnectClient
	RegisterTest("demo", func(context.Context, Destination) (Impl, error) {
		attempts++
		return &eofImpl{}, nil
	})
	done := make(chan struct{})
	rc = Reconnect(&BaseClient{}, func() {
		if discs++; discs == 3 {
			go func() { rc.Close(); close(done) }()
			time.Sleep(200 * time.Millisecond)
		}
	}, func() { resets++ })
	within(t, 5*time.Second, "Subscribe", func() {
		rc.Subscribe(context.Background(), demoQuery(func(Notification) error { return nil }), "demo")
	})
	<-done
	if attempts != 3 || discs != attempts || resets != attempts-1 {
		t.Fatalf("%d attempts, %d disconnects, %d resets", attempts, discs, resets)
	}
}

type eofImpl struct{}

func (eofImpl) Subscribe(context.Context, Query) error { return nil }
func (eofImpl) Recv() error                            { return ErrStopReading }
func (eofImpl) Close() error                           { return nil }
func (eofImpl) Poll() error                            { return nil }
'''))
S.append(dict(id='c18-connected-with-data', prop='C18', pkg='client/gnmi',
  edits=[('client/gnmi/client.go', '''	if !c.connected {
		c.handler(client.Connected{})
		c.connected = true
	}

	resp, ok''', '''	resp, ok'''),
   ('client/gnmi/client.go', '''		n := v.Update
		p := path''', '''		if !c.connected {
			c.handler(client.Connected{})
			c.connected = true
		}
		n := v.Update
		p := path''')],
  needs='a stream whose first message is the sync response (no data yet, or updates_only)',
  breaks='Connected is announced with the first update: on a stream that begins with a sync the Sync notification comes first',
  test='''
package client

import (
	"reflect"
	"testing"

	"github.com/openconfig/gnmi/client"
	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	var got []client.Notification
	c := &Client{handler: func(n client.Notification) error { got = append(got, n); return nil }}
	if err := c.defaultRecv(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}); err != nil {
		t.Fatal(err)
	}
	if want := []client.Notification{client.Connected{}, client.Sync{}}; !reflect.DeepEqual(got, want) {
		t.Fatalf("got %#v, want %#v", got, want)
	}
}
'''))
