SUBHELP = '''
package subscribe

import (
	"context"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
)

var (
	_ = io.EOF
	_ = time.Second
	_ sync.Mutex
)

type demoStream struct {
	ctx  context.Context
	in   chan *pb.SubscribeRequest
	mu   sync.Mutex
	out  []*pb.SubscribeResponse
	got  chan struct{}
	send func(*pb.SubscribeResponse)
}

func newDemoStream(r *pb.SubscribeRequest) (*demoStream, func()) {
	ctx, cancel := context.WithCancel(peer.NewContext(context.Background(), &peer.Peer{Addr: &net.UnixAddr{Name: "x", Net: "unix"}}))
	s := &demoStream{ctx: ctx, in: make(chan *pb.SubscribeRequest, 10), got: make(chan struct{}, 100000)}
	s.in <- r
	return s, cancel
}
func (s *demoStream) Send(r *pb.SubscribeResponse) error {
	if s.send != nil {
		s.send(r)
	}
	s.mu.Lock()
	s.out = append(s.out, r)
	s.mu.Unlock()
	s.got <- struct{}{}
	return nil
}
func (s *demoStream) Recv() (*pb.SubscribeRequest, error) {
	select {
	case r, ok := <-s.in:
		if !ok {
			return nil, io.EOF
		}
		return r, nil
	case <-s.ctx.Done():
		return nil, s.ctx.Err()
	}
}
func (s *demoStream) SetHeader(metadata.MD) error  { return nil }
func (s *demoStream) SendHeader(metadata.MD) error { return nil }
func (s *demoStream) SetTrailer(metadata.MD)       {}
func (s *demoStream) Context() context.Context     { return s.ctx }
func (s *demoStream) SendMsg(any) error            { return nil }
func (s *demoStream) RecvMsg(any) error            { return nil }
func (s *demoStream) responses() []*pb.SubscribeResponse {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*pb.SubscribeResponse(nil), s.out...)
}
func (s *demoStream) wait(n int) bool {
	for i := 0; i < 500; i++ {
		if len(s.responses()) >= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func demoPath(names ...string) *pb.Path {
	p := &pb.Path{}
	for _, n := range names {
		p.Elem = append(p.Elem, &pb.PathElem{Name: n})
	}
	return p
}

func demoReq(target string, mode pb.SubscriptionList_Mode, updatesOnly bool, paths ...*pb.Path) *pb.SubscribeRequest {
	l := &pb.SubscriptionList{Prefix: &pb.Path{Target: target}, Mode: mode, UpdatesOnly: updatesOnly}
	for _, p := range paths {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: p})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

func demoUpdate(c *cache.Cache, target string, ts, v int64, names ...string) error {
	return c.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: &pb.Path{Target: target}, Update: []*pb.Update{{
		Path: demoPath(names...), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}}}})
}
'''

S.append(dict(id='c04-updates-only-order', prop='C04', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''		if c.sr.GetSubscribe().GetUpdatesOnly() {
			c.queue.Insert(syncMarker{})
		}
		remove := addSubscription(s.m, c.sr.GetSubscribe(),
			&matchClient{acl: c.acl, q: c.queue})
		defer remove()
		if !c.sr.GetSubscribe().GetUpdatesOnly() {
			go s.processSubscription(&c)
		}
''', '''		remove := addSubscription(s.m, c.sr.GetSubscribe(),
			&matchClient{acl: c.acl, q: c.queue})
		defer remove()
		uo := c.sr.GetSubscribe().GetUpdatesOnly()
		if uo {
			c.queue.Insert(syncMarker{})
		}
		if !uo {
			go s.processSubscription(&c)
		}
''')],
 needs='an updates_only STREAM subscription and an update accepted between its registration and the queueing of the sync marker',
 breaks='the sync_response is not the first response of an updates_only subscription',
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(s.Update)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		name := string(rune('a' + g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int64(1); ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				demoUpdate(c, "dev", i, i, name)
			}
		}()
	}
	defer wg.Wait()
	defer close(stop)
	paths := []*pb.Path{demoPath()}
	for i := 0; i < 300; i++ {
		paths = append(paths, demoPath("zz", string(rune('a'+i%26)), string(rune('a'+i/26))))
	}
	for i := 0; i < 400; i++ {
		st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_STREAM, true, paths...))
		done := make(chan struct{})
		go func() { s.Subscribe(st); close(done) }()
		if !st.wait(1) {
			t.Fatal("no response")
		}
		first := st.responses()[0]
		cancel()
		<-done
		if !first.GetSyncResponse() {
			t.Fatalf("subscription %d: first response %v", i, first)
		}
	}
}
'''))

S.append(dict(id='c08-atomic-detached', prop='C08', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''	_, c.err = c.q.Insert(n)
''', '''	if l, ok := n.(*ctree.Leaf); ok {
		if v, ok := l.Value().(*pb.Notification); ok && v.GetAtomic() {
			n = ctree.DetachedLeaf(v)
		}
	}
	_, c.err = c.q.Insert(n)
''')],
 needs='an atomic leaf updated several times while the subscriber is stalled',
 breaks='updates of an atomic leaf are not coalesced: the backlog grows with every update',
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(s.Update)
	release := make(chan struct{})
	st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_STREAM, true, demoPath("a")))
	defer cancel()
	first := true
	st.send = func(*pb.SubscribeResponse) {
		if first {
			first = false
			<-release
		}
	}
	go s.Subscribe(st)
	time.Sleep(200 * time.Millisecond)
	for i := int64(1); i <= 50; i++ {
		pre := demoPath("a", "b")
		pre.Target = "dev"
		if err := c.GnmiUpdate(&pb.Notification{Timestamp: i, Atomic: true, Prefix: pre, Update: []*pb.Update{{
			Path: demoPath("x"), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: i}}}}}); err != nil {
			t.Fatal(err)
		}
	}
	close(release)
	st.wait(2)
	time.Sleep(200 * time.Millisecond)
	if n := len(st.responses()); n > 2 {
		t.Errorf("%d responses for one leaf that changed while the subscriber was stalled", n-1)
	}
}
'''))

S.append(dict(id='c05-root-skipped', prop='C05', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''			if err != nil {
				return
			}
			// Note that fullPath doesn't contain target name as the first element.
''', '''			if err != nil {
				return
			}
			if len(fullPath) == 0 && len(c.sr.GetSubscribe().GetSubscription()) > 1 {
				// Nothing to look up.
				continue
			}
			// Note that fullPath doesn't contain target name as the first element.
''')],
 needs='a ONCE subscription with several paths one of which is empty (the root)',
 breaks='leaves matching only the root path are missing from the snapshot',
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	demoUpdate(c, "dev", 1, 1, "a", "b")
	demoUpdate(c, "dev", 1, 1, "c", "d")
	st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_ONCE, false, demoPath(), demoPath("a")))
	defer cancel()
	if err := s.Subscribe(st); err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for _, r := range st.responses() {
		for _, u := range r.GetUpdate().GetUpdate() {
			seen[u.GetPath().GetElem()[0].GetName()] = true
		}
	}
	if !seen["a"] || !seen["c"] {
		t.Errorf("snapshot has %v, want a and c", seen)
	}
}
'''))

S.append(dict(id='c05-poll-retarget', prop='C05', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''		_, err := c.stream.Recv()
''', '''		sr, err := c.stream.Recv()
'''), ('subscribe/subscribe.go', '''		log.Infof("polling subscription: repoll: %q", c.sr)
''', '''		if sr.GetSubscribe() != nil {
			c.sr = sr
		}
		log.Infof("polling subscription: repoll: %q", c.sr)
''')],
 needs='a poll trigger that itself carries a subscription',
 breaks='a later poll returns something else than the matching set of the original request',
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	demoUpdate(c, "dev", 1, 1, "a")
	st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_POLL, false, demoPath("a")))
	defer cancel()
	go s.Subscribe(st)
	if !st.wait(2) {
		t.Fatal("no initial snapshot")
	}
	st.in <- demoReq("dev", pb.SubscriptionList_POLL, false)
	if !st.wait(4) {
		t.Errorf("the second poll returned %d responses, want an update and a sync", len(st.responses())-2)
	}
}
'''))

S.append(dict(id='c07-delete-leak', prop='C07', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''	if pre := notification.GetUpdate().GetPrefix(); pre != nil {
		if !c.acl.Check(pre.GetTarget()) {
''', '''	if pre := notification.GetUpdate().GetPrefix(); pre != nil && pre.GetOrigin() == "" {
		if !c.acl.Check(pre.GetTarget()) {
''')],
 needs='an all-targets subscription and a notification with an origin for a denied target',
 breaks='data of a denied target is sent',
 test=SUBHELP + '''
type demoACL struct{}

type demoRPC struct{}

func (demoACL) NewRPCACL(context.Context) (RPCACL, error) { return demoRPC{}, nil }
func (demoACL) Check(_, d string) bool                    { return d == "ok" }
func (demoRPC) Check(d string) bool                       { return d == "ok" }

func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"ok", "secret"})
	s, err := NewServer(c, WithACL(demoACL{}))
	if err != nil {
		t.Fatal(err)
	}
	for _, d := range []string{"ok", "secret"} {
		if err := c.GnmiUpdate(&pb.Notification{Timestamp: 1, Prefix: &pb.Path{Target: d, Origin: "oc"}, Update: []*pb.Update{{
			Path: demoPath("a"), Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: 1}}}}}); err != nil {
			t.Fatal(err)
		}
	}
	st, cancel := newDemoStream(demoReq("*", pb.SubscriptionList_ONCE, false, demoPath("*")))
	defer cancel()
	s.Subscribe(st)
	for _, r := range st.responses() {
		if r.GetUpdate().GetPrefix().GetTarget() == "secret" {
			t.Errorf("sent %v", r)
		}
	}
}
'''))

S.append(dict(id='c08-delete-no-timeout', prop='C08', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''	r.t.Reset(s.o.timeout)
''', '''	upd := notification.GetUpdate()
	if len(upd.GetUpdate()) > 0 {
		r.t.Reset(s.o.timeout)
	}
''')],
 needs='a subscriber whose send blocks while it is being sent a delete',
 breaks='a send that stays blocked never ends the subscription',
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c, WithTimeout(200*time.Millisecond))
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(s.Update)
	demoUpdate(c, "dev", 1, 1, "a")
	st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_STREAM, false, demoPath("a")))
	defer cancel()
	st.send = func(r *pb.SubscribeResponse) {
		if len(r.GetUpdate().GetDelete()) > 0 {
			<-st.ctx.Done()
		}
	}
	done := make(chan error, 1)
	go func() { done <- s.Subscribe(st) }()
	if !st.wait(2) {
		t.Fatal("no snapshot")
	}
	c.GnmiUpdate(&pb.Notification{Timestamp: 2, Prefix: &pb.Path{Target: "dev"}, Delete: []*pb.Path{demoPath("a")}})
	select {
	case err := <-done:
		if err == nil {
			t.Error("ended without an error")
		}
	case <-time.After(5 * time.Second):
		t.Error("a blocked send did not end the subscription")
	}
}
'''))

S.append(dict(id='c08-shared-dup', prop='C08', pkg='subscribe',
 edits=[('subscribe/subscribe.go', '''		notification = proto.Clone(notification).(*pb.Notification)
''', '''		notification = &pb.Notification{
			Timestamp: notification.GetTimestamp(),
			Prefix:    notification.GetPrefix(),
			Update:    notification.Update,
			Delete:    notification.GetDelete(),
			Atomic:    notification.GetAtomic(),
		}
'''), ('subscribe/subscribe.go', '	"google.golang.org/protobuf/proto"\n', '')],
 needs='one slow subscriber that is sent a coalesced leaf and another subscriber that reads the same leaf',
 breaks="another subscriber sees a duplicate count that is not its own",
 test=SUBHELP + '''
func TestPlantedDemo(t *testing.T) {
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(s.Update)
	release := make(chan struct{})
	st, cancel := newDemoStream(demoReq("dev", pb.SubscriptionList_STREAM, true, demoPath("a")))
	defer cancel()
	first := true
	st.send = func(*pb.SubscribeResponse) {
		if first {
			first = false
			<-release
		}
	}
	go s.Subscribe(st)
	time.Sleep(200 * time.Millisecond)
	for i := int64(1); i <= 5; i++ {
		demoUpdate(c, "dev", i, i, "a")
	}
	close(release)
	if !st.wait(2) {
		t.Fatal("no update")
	}
	other, cancel2 := newDemoStream(demoReq("dev", pb.SubscriptionList_ONCE, false, demoPath("a")))
	defer cancel2()
	if err := s.Subscribe(other); err != nil {
		t.Fatal(err)
	}
	if d := other.responses()[0].GetUpdate().GetUpdate()[0].GetDuplicates(); d != 0 {
		t.Errorf("a ONCE subscriber is told of %d duplicates", d)
	}
}
'''))

S.append(dict(id='c11-keep-count', prop='C11', pkg='coalesce',
 edits=[('coalesce/coalesce.go', '''	delete(q.coalesced, i)
''', '''	if coalesced == 0 {
		delete(q.coalesced, i)
	} else {
		q.coalesced[i] = 0
	}
''')],
 needs='an item that was coalesced, taken while other items are pending, and inserted again before the queue drains',
 breaks='the new insertion is taken for a duplicate of an item no longer queued and is lost',
 test='''
package coalesce

import (
	"context"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	q := NewQueue()
	for _, i := range []string{"a", "a", "b"} {
		q.Insert(i)
	}
	ctx := context.Background()
	if i, d, err := q.Next(ctx); i != "a" || d != 1 || err != nil {
		t.Fatal(i, d, err)
	}
	q.Insert("a")
	q.Close()
	var got []interface{}
	for {
		i, _, err := q.Next(ctx)
		if err != nil {
			break
		}
		got = append(got, i)
	}
	if len(got) != 2 || got[0] != "b" || got[1] != "a" {
		t.Errorf("got %v, want [b a]", got)
	}
}
'''))
