S.append(dict(id='c01-same-ts', prop='C01', pkg='client',
    edits=[('client/cache.go', '''	case Update:
		c.Add(''', '''	case Update:
		if old, ok := c.GetLeafValue(v.Path).(TreeVal); ok && !v.TS.After(old.TS) {
			// The leaf is already as recent.
			break
		}
		c.Add(''')],
    needs='a leaf whose value changes without its timestamp changing, as targets that stamp whole samples do',
    breaks='the client keeps showing the first value it received for that timestamp although the collector relays the later one',
    test='''package client

import (
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	c := New()
	for _, v := range []int{1, 2} {
		if err := c.defaultHandler(Update{Path: Path{"a"}, TS: time.Unix(0, 5), Val: v}); err != nil {
			t.Fatal(err)
		}
	}
	if got := c.Leaves(); len(got) != 1 || got[0].Val != 2 {
		t.Fatalf("leaves %v, want the value 2", got)
	}
}
'''))
S.append(dict(id='c01-shared-addr', prop='C01', pkg='cmd/gnmi_collector',
    edits=[('cmd/gnmi_collector/gnmi_collector.go', '''	for id, t := range c.config.Target {
		log.Infof("starting target %s", id)
''', '''	started := map[string]bool{}
	for id, t := range c.config.Target {
		if as := t.GetAddresses(); len(as) > 0 && t.GetDialer() == "" {
			if started[as[0]] {
				log.Errorf("target %s: address %s already in use", id, as[0])
				continue
			}
			started[as[0]] = true
		}
		log.Infof("starting target %s", id)
''')],
    needs='two configured targets that are reached through the same address, such as a gateway',
    breaks='only one of them, whichever the map yields first, is subscribed to and known to the cache',
    test='''package main

import (
	"context"
	"errors"
	"testing"

	"google.golang.org/grpc"
	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"

	gnmipb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
)

func TestPlantedDemo(t *testing.T) {
	c := collector{cache: cache.New(nil), config: &tpb.Configuration{
		Request: map[string]*gnmipb.SubscribeRequest{"r": {}},
		Target: map[string]*tpb.Target{
			"a": {Addresses: []string{"gw:1"}, Request: "r"},
			"b": {Addresses: []string{"gw:1"}, Request: "r"},
		},
	}}
	var err error
	c.cm, err = connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: func(context.Context, string, ...grpc.DialOption) (*grpc.ClientConn, error) {
		return nil, errors.New("unreachable")
	}})
	if err != nil {
		t.Fatal(err)
	}
	if c.tm, err = manager.NewManager(manager.Config{Credentials: &unimplementedCredentials{}, ConnectionManager: c.cm}); err != nil {
		t.Fatal(err)
	}
	c.start(context.Background())
	for _, id := range []string{"a", "b"} {
		if !c.cache.HasTarget(id) {
			t.Errorf("target %s is not known to the cache", id)
		}
		if err := c.tm.Remove(id); err != nil {
			t.Errorf("target %s was not subscribed to: %v", id, err)
		}
	}
}
'''))
S.append(dict(id='c01-rootquery', prop='C01', pkg='client/gnmi',
    edits=[('client/gnmi/client.go', '''	for _, qq := range q.Queries {
		pp, err''', '''	for i, qq := range q.Queries {
		if len(qq) == 0 && i > 0 {
			// Nothing is asked for.
			continue
		}
		pp, err''')],
    needs='a query for the whole tree that is listed after another query',
    breaks='the request that is sent does not contain the query for the root: most of the target\'s leaves never arrive',
    test='''package client

import (
	"testing"

	"github.com/openconfig/gnmi/client"
)

func TestPlantedDemo(t *testing.T) {
	sr, err := subscribe(client.Query{Target: "dev", Type: client.Once, Queries: []client.Path{{"a"}, {}}})
	if err != nil {
		t.Fatal(err)
	}
	if n := len(sr.GetSubscribe().GetSubscription()); n != 2 {
		t.Fatalf("%d subscriptions, want 2", n)
	}
}
'''))
