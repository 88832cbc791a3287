S.append(dict(id='c12-nulljson', prop='C12', pkg='client/gnmi',
    edits=[('client/gnmi/client.go', '''		var val any
		if err := json.Unmarshal(v.Value, &val); err != nil {''', '''		var val any
		if v.Value[0] == 'n' {
			// JSON null carries no value.
			return client.Update{Path: p, TS: ts, Dups: u.Duplicates}, nil
		}
		if err := json.Unmarshal(v.Value, &val); err != nil {''')],
    needs='an update in the deprecated Value encoding, of a JSON type, with no bytes at all',
    breaks='the client crashes with an index out of range instead of reporting the undecodable value',
    test='''package client

import (
	"testing"
	"time"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	u := &gpb.Update{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: "a"}}}, Value: &gpb.Value{Type: gpb.Encoding_JSON}}
	if n, err := noti(nil, u.Path, time.Unix(0, 1), u); err == nil {
		t.Fatalf("got %v, want an error", n)
	}
}
'''))
S.append(dict(id='c12-sliceprefix', prop='C12', pkg='manager',
    edits=[('manager/manager.go', '''		if m.update != nil {
			m.update(name, v.Update)
		}
''', '''		if log.V(1) || len(v.Update.GetDelete()) > 1 {
			log.Infof("%q deletes %v", v.Update.Prefix.Origin, v.Update.GetDelete()[0])
		}
		if m.update != nil {
			m.update(name, v.Update)
		}
''')],
    needs='a notification with several deletes and no prefix',
    breaks='the process crashes while logging: the origin is read from a prefix that is not there',
    test='''package manager

import (
	"testing"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	n := 0
	m := &Manager{update: func(string, *gpb.Notification) { n++ }}
	r := &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: &gpb.Notification{Delete: []*gpb.Path{{}, {}}}}}
	if err := m.handleGNMIUpdate("dev", r); err != nil || n != 1 {
		t.Fatalf("handleGNMIUpdate: %v, %d updates", err, n)
	}
}
'''))
S.append(dict(id='c12-nopath', prop='C12', pkg='subscribe',
    edits=[('subscribe/subscribe.go', """		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
			query = append(prefix, origin)
		}
""", """		if origin := p.Origin; s.GetPrefix().GetOrigin() == "" && len(origin) > 0 {
			query = append(prefix, origin)
		}
""")],
    needs='a streaming subscription that carries no path (it selects everything below the prefix)',
    breaks='the server crashes with a nil dereference while registering the subscription',
    test='''package subscribe

import (
	"testing"

	"github.com/openconfig/gnmi/match"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	addSubscription(match.New(), &pb.SubscriptionList{Prefix: &pb.Path{Target: "dev"}, Subscription: []*pb.Subscription{{}}}, &matchClient{})()
}
'''))
