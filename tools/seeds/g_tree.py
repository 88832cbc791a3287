TF = 'ctree/tree.go'
S.append(dict(id='c09-sorted-walk-buffer', prop='C09', pkg='ctree',
  edits=[(TF, '''		sort.Strings(names)
		l := len(path)
		for _, name := range names {
			p := make([]string, l, l+1)
			copy(p, path)
			if err := b[name].walkInternalSorted(append(p, name), f); err != nil {''', '''		sort.Strings(names)
		l := len(path)
		p := make([]string, l+1)
		copy(p, path)
		for _, name := range names {
			p[l] = name
			if err := b[name].walkInternalSorted(p, f); err != nil {''')],
  needs='a callback of WalkSorted that keeps the paths it is given, and two sibling leaves',
  breaks='paths reported by a sorted walk change afterwards: two siblings end up with the same path',
  test='''
package ctree

import "testing"

func TestPlantedDemo(t *testing.T) {
	tr := &Tree{}
	for _, p := range [][]string{{"a", "b"}, {"a", "c"}, {"a", "d", "e"}} {
		if err := tr.Add(p, 1); err != nil {
			t.Fatal(err)
		}
	}
	var got [][]string
	tr.WalkSorted(func(p []string, _ *Leaf, _ any) error {
		got = append(got, p)
		return nil
	})
	if len(got) != 3 || got[0][1] != "b" || got[1][1] != "c" || got[2][1] != "d" {
		t.Fatalf("got %q", got)
	}
}
'''))
S.append(dict(id='c09-prune-by-report', prop='C09', pkg='ctree',
  edits=[(TF, '''			if len(b) == 0 {
				return true, allLeaves
			}
''', '''			if len(b) == 0 && (len(subpath) == 1 || len(allLeaves) > 0 && len(allLeaves[0]) > 0) {
				return true, allLeaves
			}
''')],
  needs='a conditional walk-delete of the only leaf below two or more otherwise empty branches, then an add where a branch was',
  breaks='branches emptied by WalkDeleted stay: a later add at that position fails',
  test='''
package ctree

import "testing"

func TestPlantedDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add([]string{"a", "b", "c"}, 1)
	tr.Add([]string{"x"}, 1)
	tr.WalkDeleted([]string{"a", "b", "c"}, func(any) bool { return true }, func(any) {})
	if err := tr.Add([]string{"a"}, 2); err != nil {
		t.Fatal(err)
	}
}
'''))
S.append(dict(id='c09-query-glob-tail', prop='C09', pkg='ctree',
  edits=[(TF, '''	if n := len(path); n == 0 || (n == 1 && path[0] == "*") {
''', '''	// Trailing wildcards select everything below.
	if n := len(path); n == 0 || (path[0] == "*" && path[n-1] == "*" && n <= 2) {
''')],
  needs='a query ending in two wildcards and a leaf at the position of the first of them',
  breaks='a query reports a leaf the path goes on below, and a delete of the same path does not remove it',
  test='''
package ctree

import "testing"

func TestPlantedDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add([]string{"a"}, 1)
	tr.Add([]string{"c", "d", "e"}, 1)
	n := 0
	tr.Query([]string{"*", "*", "*"}, func(p []string, _ *Leaf, _ any) error {
		n++
		return nil
	})
	if d := len(tr.Delete([]string{"*", "*", "*"})); n != d {
		t.Fatalf("query reports %d leaves, delete removes %d", n, d)
	}
}
'''))
S.append(dict(id='c10-grow-outside', prop='C10', pkg='ctree',
  edits=[(TF, '''	var br *Tree
	switch b := t.leafBranch.(type) {
	case nil:
	case branch:''', '''	var br *Tree
	var fresh branch
	switch b := t.leafBranch.(type) {
	case nil:
		// Build the new subtree before excluding the readers.
		sub := newBranch(path[1:], value)
		fresh = branch{path[0]: sub}
	case branch:'''), (TF, '''		defer t.mu.Unlock()
		t.mu.Lock()
		return t.slowAdd(path, value)''', '''		defer t.mu.Unlock()
		t.mu.Lock()
		if fresh != nil {
			t.leafBranch = fresh
			return nil
		}
		return t.slowAdd(path, value)''')],
  needs='two adds to an empty tree of which the second stores its branch while the first exchanges its lock',
  breaks='of two concurrent adds beneath a branch that does not exist yet one is lost',
  test='''
package ctree

import (
	"runtime"
	"strconv"
	"sync"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	runtime.GOMAXPROCS(4)
	for i := 0; i < 100000; i++ {
		tr := &Tree{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func(n string) {
				defer wg.Done()
				<-start
				tr.Add([]string{"a", "b", n}, 1)
			}(strconv.Itoa(j))
		}
		close(start)
		wg.Wait()
		n := 0
		tr.Walk(func([]string, *Leaf, any) error { n++; return nil })
		if n != 4 {
			t.Fatalf("round %d: %d of 4 leaves", i, n)
		}
	}
}
'''))
S.append(dict(id='c10-walk-snapshot', prop='C10', pkg='ctree',
  edits=[(TF, '''func (t *Tree) walkInternal(path []string, f VisitFunc) error {
	defer t.mu.RUnlock()
	t.mu.RLock()
	if b, ok := t.leafBranch.(branch); ok {
		l := len(path)
		for name, br := range b {''', '''func (t *Tree) walkInternal(path []string, f VisitFunc) error {
	if b := t.Children(); len(b) != 0 {
		l := len(path)
		for name, br := range b {'''), (TF, '''			if err := br.walkInternal(append(p, name), f); err != nil {
				return err
			}
		}
		return nil
	}
''', '''			if err := br.walkInternal(append(p, name), f); err != nil {
				return err
			}
		}
		return nil
	}
	defer t.mu.RUnlock()
	t.mu.RLock()
''')],
  needs='a delete that runs while a walk is between two children',
  breaks='a walk sees part of a delete: it reports leaves that were gone before it came to them',
  test='''
package ctree

import (
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add([]string{"a"}, 1)
	tr.Add([]string{"b"}, 1)
	gone := make(chan struct{})
	first := true
	tr.Walk(func([]string, *Leaf, any) error {
		if first {
			first = false
			go func() {
				tr.Add([]string{"c", "d"}, 1)
				close(gone)
			}()
			// Give it the time to get past the walk's locks if it can.
			select {
			case <-gone:
				t.Error("the tree changed in the middle of a walk")
			case <-time.After(300 * time.Millisecond):
			}
			return nil
		}
		return nil
	})
	<-gone
}
'''))
S.append(dict(id='c10-reentrant-read', prop='C10', pkg='ctree',
  edits=[(TF, '''	if b, ok := t.leafBranch.(branch); ok {
		names := make([]string, 0, len(b))
		for name := range b {
			names = append(names, name)
		}
''', '''	if b := t.Children(); len(b) != 0 {
		names := make([]string, 0, len(b))
		for name := range b {
			names = append(names, name)
		}
''')],
  needs='a delete or first add that queues for the write lock while a sorted walk is between its two read locks of a node',
  breaks='a sorted walk and a delete deadlock',
  test='''
package ctree

import (
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	tr := &Tree{}
	tr.Add([]string{"a", "b"}, 1)
	done := make(chan struct{}, 8)
	for i := 0; i < 4; i++ {
		go func() {
			for j := 0; j < 300000; j++ {
				tr.WalkSorted(func([]string, *Leaf, any) error { return nil })
			}
			done <- struct{}{}
		}()
		go func() {
			for j := 0; j < 300000; j++ {
				tr.Delete([]string{"x"})
			}
			done <- struct{}{}
		}()
	}
	limit := time.After(60 * time.Second)
	for i := 0; i < 8; i++ {
		select {
		case <-done:
		case <-limit:
			t.Fatal("deadlock")
		}
	}
}
'''))
