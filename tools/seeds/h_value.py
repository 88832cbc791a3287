HEAD = '''package %s

import (
	"testing"

%s
	gpb "github.com/openconfig/gnmi/proto/gnmi"
)
'''
S.append(dict(id='c19-sort-fold', prop='C19', pkg='path',
    edits=[('path/path.go', '	sort.Strings(ks)\n', '	sort.Slice(ks, func(i, j int) bool { return strings.ToLower(ks[i]) < strings.ToLower(ks[j]) })\n'),
           ('path/path.go', '	"sort"\n', '	"sort"\n	"strings"\n')],
    needs='a list element with several keys whose names are ordered differently when case is ignored (or differ only in case)',
    breaks='key values are ordered by the case-folded key name: "B" comes after "a", and for names equal but for case the order is that of the map iteration',
    test=HEAD % ('path', '') + '''
func TestPlantedDemo(t *testing.T) {
	p := &gpb.Path{Elem: []*gpb.PathElem{{Name: "l", Key: map[string]string{"a": "va", "B": "vB", "c": "vc"}}}}
	want := []string{"l", "vB", "va", "vc"}
	for i := 0; i < 20; i++ {
		got := ToStrings(p, false)
		if len(got) != len(want) {
			t.Fatalf("got %v", got)
		}
		for j := range want {
			if got[j] != want[j] {
				t.Fatalf("got %v, want %v", got, want)
			}
		}
	}
}
'''))
S.append(dict(id='c19-complete-deprecated', prop='C19', pkg='path',
    edits=[('path/path.go', '		if len(indexedPrefix) > 0 {\n', '		if prefix != nil && len(prefix.Elem) > 0 {\n')],
    needs='a path with an origin combined with a prefix that has elements in the deprecated encoding only',
    breaks='the conflict is not rejected and the prefix elements silently disappear from the combined path',
    test=HEAD % ('path', '') + '''
func TestPlantedDemo(t *testing.T) {
	got, err := CompletePath(&gpb.Path{Element: []string{"a", "b"}}, &gpb.Path{Origin: "o", Elem: []*gpb.PathElem{{Name: "c"}}})
	if err == nil {
		t.Fatalf("no error, path %v", got)
	}
}
'''))
S.append(dict(id='c19-equal-list-prefix', prop='C19', pkg='value',
    edits=[('value/value.go', '		if len(ae) != len(be) {\n			return false\n		}\n		for i := range ae {\n', '		n := len(ae)\n		if len(be) < n {\n			n = len(be)\n		}\n		if n == 0 {\n			return len(ae) == len(be)\n		}\n		for i := 0; i < n; i++ {\n')],
    needs='two leaf lists of which one is a proper, non-empty prefix of the other',
    breaks='they compare equal, so an update appending to a leaf list is suppressed',
    test=HEAD % ('value', '') + '''
func TestPlantedDemo(t *testing.T) {
	l := func(ss ...string) *gpb.TypedValue {
		v, err := FromScalar(ss)
		if err != nil {
			t.Fatal(err)
		}
		return v
	}
	if Equal(l("a", "b"), l("a", "b", "c")) || Equal(l("a", "b", "c"), l("a", "b")) {
		t.Fatal("different leaf lists compare equal")
	}
	if !Equal(l("a", "b"), l("a", "b")) {
		t.Fatal("equal leaf lists differ")
	}
}
'''))
S.append(dict(id='c19-equal-double-ulp', prop='C19', pkg='value',
    edits=[('value/value.go', '		return av.DoubleVal == bv.DoubleVal\n', '		return av.DoubleVal == bv.DoubleVal || float32(av.DoubleVal) == float32(bv.DoubleVal)\n')],
    needs='two doubles closer than float32 can tell',
    breaks='they compare equal, so a small change of a counter kept as a double is suppressed',
    test=HEAD % ('value', '') + '''
func TestPlantedDemo(t *testing.T) {
	d := func(f float64) *gpb.TypedValue { return &gpb.TypedValue{Value: &gpb.TypedValue_DoubleVal{DoubleVal: f}} }
	if Equal(d(16777216), d(16777217)) {
		t.Fatal("different doubles compare equal")
	}
}
'''))
