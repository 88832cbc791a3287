MF = 'match/match.go'
MHELP = '''
package match

import "testing"

type demoClient struct{ got []any }

func (c *demoClient) Update(n any) { c.got = append(c.got, n) }
'''
S.append(dict(id='c06-seen-stops-descent', prop='C06', pkg='match',
  edits=[(MF, '''		if _, ok := updated[client]; !ok {
			client.Update(n)
			updated[client] = struct{}{}
		}
	}
''', '''		if _, ok := updated[client]; !ok {
			client.Update(n)
			updated[client] = struct{}{}
		} else if len(b.clients) == 1 {
			// The only client here has it already.
			return
		}
	}
''')],
  needs='two clients, one subscribed to a path and the other below it, and a notification with two updates under it (or overlapping paths of the first client)',
  breaks='a client subscribed below another one\'s path is not offered the second update\'s notification',
  test=MHELP + '''
func TestPlantedDemo(t *testing.T) {
	m := New()
	a, b := &demoClient{}, &demoClient{}
	m.AddQuery([]string{"dev", "x"}, a)
	m.AddQuery([]string{"dev", "x", "y"}, b)
	upd := map[Client]struct{}{}
	m.UpdateOnce(1, []string{"dev", "x", "z"}, upd)
	m.UpdateOnce(1, []string{"dev", "x", "y"}, upd)
	if len(a.got) != 1 || len(b.got) != 1 {
		t.Fatalf("a was offered it %d times, b %d times; want once each", len(a.got), len(b.got))
	}
}
'''))
S.append(dict(id='c06-prune-clients-only', prop='C06', pkg='match',
  edits=[(MF, '		empty = (len(b.clients) == 0 && len(b.children) == 0)\n', '		empty = len(b.clients) == 0 && (len(query) > 0 || len(b.children) == 0)\n')],
  needs='two clients whose paths share an element above which nobody is registered; one of them unsubscribes',
  breaks='removing a subscription removes the branch another client is registered in: it gets no further updates',
  test=MHELP + '''
func TestPlantedDemo(t *testing.T) {
	m := New()
	a, b := &demoClient{}, &demoClient{}
	rm := m.AddQuery([]string{"dev", "x", "y"}, a)
	m.AddQuery([]string{"dev", "x", "z"}, b)
	rm()
	m.Update(1, []string{"dev", "x", "z"})
	if len(a.got) != 0 || len(b.got) != 1 {
		t.Fatalf("a was offered it %d times, b %d times; want 0 and 1", len(a.got), len(b.got))
	}
}
'''))
S.append(dict(id='c06-path-dedup', prop='C06', pkg='subscribe',
  edits=[('subscribe/subscribe.go', '''	prefix := path.ToStrings(s.Prefix, true)
	for _, sub := range s.Subscription {
''', '''	prefix := path.ToStrings(s.Prefix, true)
	seen := map[string]bool{}
	for _, sub := range s.Subscription {
'''), ('subscribe/subscribe.go', '''		removes = append(removes, m.AddQuery(query, c))
''', '''		// A path given twice is registered once.
		key := strings.Join(query, "/")
		if seen[key] {
			continue
		}
		seen[key] = true
		removes = append(removes, m.AddQuery(query, c))
''')],
  needs='one request with two subscription paths whose elements differ but join to the same text (a key value that holds a slash)',
  breaks='updates below the second path are never streamed',
  test='''
package subscribe

import (
	"testing"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/coalesce"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	path := func(names ...string) *pb.Path {
		p := &pb.Path{}
		for _, n := range names {
			p.Elem = append(p.Elem, &pb.PathElem{Name: n})
		}
		return p
	}
	c := cache.New([]string{"dev"})
	s, err := NewServer(c)
	if err != nil {
		t.Fatal(err)
	}
	c.SetClient(s.Update)
	q := coalesce.NewQueue()
	rm := addSubscription(s.m, &pb.SubscriptionList{Prefix: &pb.Path{Target: "dev"}, Subscription: []*pb.Subscription{
		{Path: path("port", "1", "0")}, {Path: path("port", "1/0")},
	}}, &matchClient{q: q, acl: &aclStub{}})
	defer rm()
	if err := c.GnmiUpdate(&pb.Notification{Timestamp: 1, Prefix: &pb.Path{Target: "dev"}, Update: []*pb.Update{{
		Path: path("port", "1/0", "name"), Val: &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: "x"}}}}}); err != nil {
		t.Fatal(err)
	}
	if q.Len() != 1 {
		t.Fatalf("%d updates are queued for the subscriber of port/1%%2f0; want 1", q.Len())
	}
}
'''))
