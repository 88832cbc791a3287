CFGHELP = '''
package target

import (
	"sync"
	"testing"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	pb "github.com/openconfig/gnmi/proto/target"
)

var _ sync.Mutex

func demoConfig(rev int64, targets map[string]*pb.Target) *pb.Configuration {
	reqs := map[string]*gpb.SubscribeRequest{}
	for _, t := range targets {
		reqs[t.Request] = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{}}}
	}
	return &pb.Configuration{Revision: rev, Target: targets, Request: reqs}
}

func demoTarget(addr string) *pb.Target {
	return &pb.Target{Addresses: []string{addr}, Request: "r"}
}
'''
S.append(dict(id='c17-partial-compare', prop='C17', pkg='target',
  edits=[('target/target.go', '!requestChanged[t.GetRequest()] && proto.Equal(t, nt)', '!requestChanged[t.GetRequest()] && sameTarget(t, nt)'),
   ('target/target.go', '// Validate confirms', '''// sameTarget reports whether connecting to b differs from connecting to a.
func sameTarget(a, b *pb.Target) bool {
	if len(a.GetAddresses()) != len(b.GetAddresses()) || a.GetRequest() != b.GetRequest() {
		return false
	}
	for i, addr := range a.GetAddresses() {
		if addr != b.GetAddresses()[i] {
			return false
		}
	}
	return proto.Equal(a.GetCredentials(), b.GetCredentials())
}

// Validate confirms''')],
  needs='a new revision that changes only the dialer or the metadata of a target',
  breaks='the comparison of two target settings leaves out two fields: no Update is reported for a change of those',
  test=CFGHELP + '''
func TestPlantedDemo(t *testing.T) {
	updates := 0
	c := NewConfig(Handler{Add: func(Update) {}, Update: func(Update) { updates++ }, Delete: func(string) {}})
	if err := c.Load(demoConfig(1, map[string]*pb.Target{"a": demoTarget("x")})); err != nil {
		t.Fatal(err)
	}
	n := demoTarget("x")
	n.Dialer = "tunnel"
	if err := c.Load(demoConfig(2, map[string]*pb.Target{"a": n})); err != nil {
		t.Fatal(err)
	}
	if updates != 1 {
		t.Fatalf("%d updates reported for a changed dialer, want 1", updates)
	}
}
'''))
S.append(dict(id='c17-stale-check', prop='C17', pkg='target',
  edits=[('target/target.go', '''	c.mu.Lock()
	defer c.mu.Unlock()
	if err := c.checkRevision(config); err != nil {
		return err
	}
''', '''	// A stale file is refused without holding up a load in progress.
	c.mu.Lock()
	err := c.checkRevision(config)
	c.mu.Unlock()
	if err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
''')],
  needs='two concurrent loads: the older revision passes the check before the newer one is applied and is applied after it',
  breaks='the revision is compared in a critical section of its own: an older configuration replaces a newer one',
  test=CFGHELP + '''
func TestPlantedDemo(t *testing.T) {
	for i := 0; i < 30000; i++ {
		mu := sync.Mutex{}
		last := int64(0)
		c := NewConfig(Handler{Add: func(Update) {}, Update: func(Update) {}, Delete: func(string) {}})
		start := make(chan struct{})
		var wg sync.WaitGroup
		for rev := int64(1); rev <= 4; rev++ {
			cfg := demoConfig(rev, map[string]*pb.Target{"a": demoTarget("x")})
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if c.Load(cfg) == nil {
					mu.Lock()
					if cfg.Revision > last {
						last = cfg.Revision
					}
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		if got := c.Current().GetRevision(); got != last {
			t.Fatalf("round %d: revision %d was accepted, but %d is current", i, last, got)
		}
	}
}
'''))
S.append(dict(id='c17-readdressed', prop='C17', pkg='target',
  edits=[('target/target.go', '''		default:
			if c.h.Update != nil {
				r := config''', '''		default:
			if requestChanged[t.GetRequest()] && t.GetRequest() != nt.GetRequest() && c.h.Delete != nil {
				// What the old request collected is void.
				c.h.Delete(k)
			}
			if c.h.Update != nil {
				r := config''')],
  needs='one revision that moves a target to another request and at the same time changes the request it used',
  breaks='such a target is reported deleted and then updated instead of just updated',
  test=CFGHELP + '''
func TestPlantedDemo(t *testing.T) {
	log := ""
	c := NewConfig(Handler{Add: func(Update) { log += "A" }, Update: func(Update) { log += "U" }, Delete: func(string) { log += "D" }})
	one, two := demoTarget("x"), demoTarget("y")
	two.Request = "s"
	if err := c.Load(demoConfig(1, map[string]*pb.Target{"a": one, "b": two})); err != nil {
		t.Fatal(err)
	}
	moved := demoTarget("x")
	moved.Request = "s"
	cfg := demoConfig(2, map[string]*pb.Target{"a": moved, "b": two})
	cfg.Request["r"] = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: &gpb.SubscriptionList{UpdatesOnly: true}}}
	log = ""
	if err := c.Load(cfg); err != nil {
		t.Fatal(err)
	}
	if log != "U" {
		t.Fatalf("handlers %q, want one update", log)
	}
}
'''))
