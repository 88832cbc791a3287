S.append(dict(id='c02-equal-first-update', prop='C02', pkg='cache',
 edits=[('cache/cache.go', '			if !proto.Equal(old, n) {\n', '			if len(old.GetUpdate()) != len(n.GetUpdate()) || !proto.Equal(old.Update[0], n.Update[0]) {\n')],
 needs='two atomic notifications with the same prefix, timestamp and number of updates whose first updates are equal and whose later updates differ',
 breaks='a different value with the same timestamp is rejected as stale instead of replacing the stored one',
 test='''
package cache

import (
	"testing"

	"github.com/openconfig/gnmi/ctree"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	c := New([]string{"dev"})
	el := func(n ...string) *pb.Path {
		p := &pb.Path{}
		for _, x := range n {
			p.Elem = append(p.Elem, &pb.PathElem{Name: x})
		}
		return p
	}
	iv := func(i int64) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: i}} }
	mk := func(second int64) *pb.Notification {
		pre := el("a", "b")
		pre.Target = "dev"
		return &pb.Notification{Timestamp: 5, Atomic: true, Prefix: pre, Update: []*pb.Update{
			{Path: el("x"), Val: iv(1)}, {Path: el("y"), Val: iv(second)}}}
	}
	if err := c.GnmiUpdate(mk(1)); err != nil {
		t.Fatal(err)
	}
	if err := c.GnmiUpdate(mk(2)); err != nil {
		t.Errorf("a different value at the same timestamp is rejected: %v", err)
	}
	var got int64
	c.Query("dev", []string{"a", "b"}, func(_ []string, _ *ctree.Leaf, v interface{}) error {
		got = v.(*pb.Notification).Update[1].GetVal().GetIntVal()
		return nil
	})
	if got != 2 {
		t.Errorf("stored second value %d, want 2", got)
	}
}
'''))

S.append(dict(id='c03-restore-on-error', prop='C03', pkg='cache',
 edits=[('cache/cache.go', '		defer func() {\n			n.Update = updates\n			n.Delete = deletes\n		}()\n		errs := &errlist.List{}\n', '		errs := &errlist.List{}\n		defer func() {\n			if errs.Err() != nil {\n				return\n			}\n			n.Update = updates\n			n.Delete = deletes\n		}()\n')],
 needs='a notification with several updates of which at least one is rejected (stale), after which the caller looks at its notification',
 breaks="the caller's notification is left without its updates and deletes",
 test='''
package cache

import (
	"testing"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"google.golang.org/protobuf/proto"
)

func TestPlantedDemo(t *testing.T) {
	c := New([]string{"dev"})
	up := func(name string, v int64) *pb.Update {
		return &pb.Update{Path: &pb.Path{Elem: []*pb.PathElem{{Name: name}}}, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: v}}}
	}
	if err := c.GnmiUpdate(&pb.Notification{Timestamp: 10, Prefix: &pb.Path{Target: "dev"}, Update: []*pb.Update{up("a", 1)}}); err != nil {
		t.Fatal(err)
	}
	n := &pb.Notification{Timestamp: 5, Prefix: &pb.Path{Target: "dev"}, Update: []*pb.Update{up("a", 2), up("b", 2)}}
	want := proto.Clone(n)
	if err := c.GnmiUpdate(n); err == nil {
		t.Fatal("no error for a stale update")
	}
	if !proto.Equal(n, want) {
		t.Errorf("the notification was modified: %v, want %v", n, want)
	}
}
'''))

S.append(dict(id='c03-delete-notified-early', prop='C03', pkg='cache',
 edits=[('cache/cache.go', '	case len(n.GetUpdate()) == 1:\n		nd, err := t.gnmiUpdate(n)\n		if err != nil {\n			return err\n		}\n		if nd != nil {\n			t.meta.AddInt(metadata.UpdateCount, 1)\n			t.client(nd)\n		}\n', '	case len(n.GetUpdate()) == 1:\n		nd, err := t.gnmiUpdate(n)\n		if err != nil {\n			return err\n		}\n		if nd != nil {\n			t.meta.AddInt(metadata.UpdateCount, 1)\n			if n.GetUpdate()[0].GetVal() != nil {\n				t.client(nd)\n			}\n		}\n')],
 needs='an accepted update that carries no value (deprecated encoding or missing value)',
 breaks='a leaf stored by the cache is never handed to the change feed',
 test='''
package cache

import (
	"testing"

	"github.com/openconfig/gnmi/ctree"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	c := New([]string{"dev"})
	fed := 0
	c.SetClient(func(*ctree.Leaf) { fed++ })
	err := c.GnmiUpdate(&pb.Notification{Timestamp: 10, Prefix: &pb.Path{Target: "dev"}, Update: []*pb.Update{{
		Path:  &pb.Path{Elem: []*pb.PathElem{{Name: "a"}}},
		Value: &pb.Value{Type: pb.Encoding_BYTES, Value: []byte("1")},
	}}})
	if err != nil {
		t.Fatal(err)
	}
	stored := 0
	c.Query("dev", []string{"a"}, func([]string, *ctree.Leaf, interface{}) error { stored++; return nil })
	if stored != fed {
		t.Errorf("%d leaves stored, %d handed to the feed", stored, fed)
	}
}
'''))

S.append(dict(id='c15-delete-counts-meta', prop='C15', pkg='cache',
 edits=[('cache/cache.go', '		t.meta.AddInt(metadata.LeafCount, 1)\n		t.meta.AddInt(metadata.AddCount, 1)\n', '		t.meta.AddInt(metadata.LeafCount, int64(len(n.Update)))\n		t.meta.AddInt(metadata.AddCount, int64(len(n.GetUpdate())))\n')],
 needs='an atomic notification with several updates (stored as one leaf), later deleted',
 breaks='the leaf count exceeds the number of leaves stored',
 test='''
package cache

import (
	"testing"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
)

func TestPlantedDemo(t *testing.T) {
	c := New([]string{"dev"})
	iv := &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: 1}}
	el := func(n string) *pb.Path { return &pb.Path{Elem: []*pb.PathElem{{Name: n}}} }
	pre := el("a")
	pre.Target = "dev"
	if err := c.GnmiUpdate(&pb.Notification{Timestamp: 10, Atomic: true, Prefix: pre, Update: []*pb.Update{{Path: el("x"), Val: iv}, {Path: el("y"), Val: iv}}}); err != nil {
		t.Fatal(err)
	}
	stored := int64(0)
	c.Query("dev", []string{"a"}, func([]string, *ctree.Leaf, interface{}) error { stored++; return nil })
	if got, _ := c.GetTarget("dev").meta.GetInt(metadata.LeafCount); got != stored {
		t.Errorf("leaf count %d, stored %d", got, stored)
	}
}
'''))

