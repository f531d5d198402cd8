package suites

import (
	"fmt"
	"sort"
	"strings"
	"time"

	smap "github.com/yusank/godis/lib/shard_map"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/vsched"
)

// mapSys pairs a sharded map with a plain map. cp and cpRef are a listing taken earlier, which nothing may change.
type mapSys struct {
	m     smap.Map
	ref   map[string]interface{}
	cp    map[string]interface{}
	cpRef string
	ks    []string
	ksRef string
}

func (s *mapSys) Roots() []any { return []any{&s.m} }
func canonMap(m map[string]interface{}) string {
	var o []string
	for k, v := range m {
		o = append(o, fmt.Sprintf("%q=%v", k, v))
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}
func (s *mapSys) Canon() string { return canonMap(s.ref) + "|" + s.cpRef + "|" + s.ksRef }

// full compares everything observable with the reference.
func (s *mapSys) full(keys []string) string {
	for _, k := range keys {
		rv, rok := s.ref[k]
		if v, ok := s.m.Get(k); ok != rok || v != rv {
			return fmt.Sprintf("Get(%q) = %v,%v, want %v,%v", k, v, ok, rv, rok)
		}
		if s.m.Has(k) != rok {
			return fmt.Sprintf("Has(%q) = %v", k, !rok)
		}
	}
	if got := canonMap(s.m.Items()); got != canonMap(s.ref) {
		return fmt.Sprintf("Items() = %s, want %s", got, canonMap(s.ref))
	}
	ks := append([]string{}, s.m.Keys()...)
	sort.Strings(ks)
	var want []string
	for k := range s.ref {
		want = append(want, k)
	}
	sort.Strings(want)
	if fmt.Sprintf("%q", ks) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("Keys() = %q, want %q", ks, want)
	}
	if s.cp != nil && canonMap(s.cp) != s.cpRef {
		return fmt.Sprintf("an earlier Items() listing changed from %s to %s", s.cpRef, canonMap(s.cp))
	}
	if s.ks != nil && fmt.Sprintf("%q", s.ks) != s.ksRef {
		return fmt.Sprintf("an earlier Keys() listing changed from %s to %q", s.ksRef, s.ks)
	}
	return ""
}

func mapOps(keys []string, vals []interface{}, listings bool) []drive.Op {
	var ops []drive.Op
	add := func(name string, f func(s *mapSys) string) {
		ops = append(ops, drive.Op{Name: name, Do: func(x drive.Sys) string {
			s := x.(*mapSys)
			if w := f(s); w != "" {
				return name + ": " + w
			}
			if w := s.full(append(keys, "absent")); w != "" {
				return "after " + name + ": " + w
			}
			return ""
		}})
	}
	for _, k := range keys {
		k := k
		for _, v := range vals {
			v := v
			add(fmt.Sprintf("Set(%q,%v)", k, v), func(s *mapSys) string { s.m.Set(k, v); s.ref[k] = v; return "" })
			add(fmt.Sprintf("SetIfAbsent(%q,%v)", k, v), func(s *mapSys) string {
				_, has := s.ref[k]
				if got := s.m.SetIfAbsent(k, v); got == has {
					return fmt.Sprintf("returned %v", got)
				}
				if !has {
					s.ref[k] = v
				}
				return ""
			})
			for _, mode := range []string{"new", "old", "other", "nil"} {
				for _, abort := range []bool{false, true} {
					mode, abort := mode, abort
					add(fmt.Sprintf("Upsert(%q,%v,%s,abort=%v)", k, v, mode, abort), func(s *mapSys) string {
						old, has := s.ref[k]
						calls, bad := 0, ""
						var r interface{}
						got, ga := s.m.Upsert(k, v, func(exist bool, vm, nv interface{}) (interface{}, bool) {
							calls++
							if exist != has || vm != old || nv != v {
								bad = fmt.Sprintf("callback got (%v,%v,%v), want (%v,%v,%v)", exist, vm, nv, has, old, v)
							}
							switch mode {
							case "new":
								r = nv
							case "old":
								r = vm
							case "other":
								r = "other"
							default:
								r = nil
							}
							return r, abort
						})
						if bad != "" {
							return bad
						}
						if calls != 1 {
							return fmt.Sprintf("callback called %d times", calls)
						}
						if got != r || ga != abort {
							return fmt.Sprintf("returned %v,%v, want %v,%v", got, ga, r, abort)
						}
						if !abort {
							s.ref[k] = r
						}
						return ""
					})
				}
			}
		}
	}
	for _, k := range append(append([]string{}, keys...), "absent") {
		k := k
		add(fmt.Sprintf("DeleteIfExists(%q)", k), func(s *mapSys) string {
			_, has := s.ref[k]
			if got := s.m.DeleteIfExists(k); got != has {
				return fmt.Sprintf("returned %v", got)
			}
			delete(s.ref, k)
			return ""
		})
		add(fmt.Sprintf("LoadAndDelete(%q)", k), func(s *mapSys) string {
			v, has := s.ref[k]
			if got, ok := s.m.LoadAndDelete(k); got != v || ok != has {
				return fmt.Sprintf("returned %v,%v, want %v,%v", got, ok, v, has)
			}
			delete(s.ref, k)
			return ""
		})
		add(fmt.Sprintf("Delete(%q)", k), func(s *mapSys) string { s.m.Delete(k); delete(s.ref, k); return "" })
	}
	for stop := 1; stop <= len(keys)+1; stop++ {
		stop := stop
		add(fmt.Sprintf("Range(stop after %d)", stop), func(s *mapSys) string {
			seen := map[string]bool{}
			n, bad := 0, ""
			s.m.Range(func(k string, v interface{}) bool {
				n++
				if seen[k] {
					bad = fmt.Sprintf("visited %q twice", k)
				}
				seen[k] = true
				if rv, ok := s.ref[k]; !ok || rv != v {
					bad = fmt.Sprintf("visited %q=%v, want %v,%v", k, v, rv, ok)
				}
				return n < stop
			})
			want := len(s.ref)
			if want > stop {
				want = stop
			}
			if bad == "" && n != want {
				bad = fmt.Sprintf("%d visits, want %d", n, want)
			}
			return bad
		})
		for mask := 0; mask < 4; mask++ {
			mask := mask
			del := func(k string) bool {
				switch mask {
				case 0:
					return false
				case 1:
					return true
				case 2:
					return k == keys[0]
				}
				return k != keys[0]
			}
			add(fmt.Sprintf("RangeAndDelete(stop after %d, mask %d)", stop, mask), func(s *mapSys) string {
				seen := map[string]bool{}
				n, bad := 0, ""
				size := len(s.ref)
				s.m.RangeAndDelete(func(k string, v interface{}) (bool, bool) {
					n++
					if seen[k] {
						bad = fmt.Sprintf("visited %q twice", k)
					}
					seen[k] = true
					if rv, ok := s.ref[k]; !ok || rv != v {
						bad = fmt.Sprintf("visited %q=%v, want %v,%v", k, v, rv, ok)
					}
					return del(k), n < stop
				})
				if size > stop {
					size = stop
				}
				if bad == "" && n != size {
					bad = fmt.Sprintf("%d visits, want %d", n, size)
				}
				for k := range seen {
					if del(k) {
						delete(s.ref, k)
					}
				}
				return bad
			})
		}
	}
	add("write into Items()", func(s *mapSys) string {
		it := s.m.Items()
		for k := range it {
			it[k] = "scribble"
		}
		it["absent"] = "scribble"
		return ""
	})
	add("write into Keys()", func(s *mapSys) string {
		ks := s.m.Keys()
		for i := range ks {
			ks[i] = "scribble"
		}
		_ = append(ks, "scribble")
		return ""
	})
	if listings {
		add("keep Items()", func(s *mapSys) string { s.cp = s.m.Items(); s.cpRef = canonMap(s.cp); return "" })
		add("keep Keys()", func(s *mapSys) string { s.ks = s.m.Keys(); s.ksRef = fmt.Sprintf("%q", s.ks); return "" })
	}
	add("another New()", func(s *mapSys) string {
		o := smap.New()
		if o.Has(keys[0]) || len(o.Keys()) != 0 || len(o.Items()) != 0 {
			return "a new map is not empty"
		}
		o.Set(keys[0], "elsewhere")
		return ""
	})
	return ops
}

func init() {
	col := collide("a", 2)
	type part struct {
		name     string
		keys     []string
		vals     []interface{}
		listings bool
		depth    tiered
		order    bool
	}
	for _, p := range []part{
		{"smap/closure", []string{"a", col[0], col[1], ""}, []interface{}{1, "x"}, false, tiered{0, 0}, true},
		{"smap/listings", []string{"a", col[0], "b"}, []interface{}{1}, true, tiered{4, 5}, false},
		{"smap/nil-values", []string{"a", col[0]}, []interface{}{nil, 1}, false, tiered{0, 0}, true},
		{"smap/shards", []string{"a", "b", "c", "é", "k\r\n\x00", strings.Repeat("long", 40)}, []interface{}{1}, false, tiered{4, 7}, false},
	} {
		p := p
		mk := func(tier string, dl time.Time) *drive.OpBFS {
			return &drive.OpBFS{Name: p.name, Deadline: dl, MaxDepth: p.depth.of(tier), Sched: vsched.Config{MapOrder: p.order}, MaxStates: 2000000,
				Fresh: func() drive.Sys { return &mapSys{m: smap.New(), ref: map[string]interface{}{}} },
				Ops:   mapOps(p.keys, p.vals, p.listings)}
		}
		All = append(All, Config{Prop: "C25", Name: p.name,
			Run: func(tier string, dl time.Time) drive.Report {
				b := mk(tier, dl)
				r := b.Run()
				r.Suite = "operations"
				r.Bound = fmt.Sprintf("%d operations over %d keys, %s", len(b.Ops), len(p.keys), map[bool]string{true: "closure of all reachable maps", false: fmt.Sprintf("all sequences up to %d", b.MaxDepth)}[b.MaxDepth == 0])
				return r
			},
			Replay: func(v *drive.Violation) (string, []string) { return mk("quick", time.Time{}).Replay(v) }})
	}
}
