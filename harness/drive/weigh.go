package drive

import "reflect"

// Weigh is the number of bytes reachable from the package variables of the code under test and from extra.
func Weigh(extra ...any) int {
	w := &scale{seen: map[uintptr]bool{}}
	for _, r := range rootVars() {
		w.value(reflect.ValueOf(r).Elem())
	}
	for _, r := range extra {
		w.value(reflect.ValueOf(r))
	}
	return w.n
}

type scale struct {
	n    int
	seen map[uintptr]bool
}

func (w *scale) once(p uintptr) bool {
	if p == 0 || w.seen[p] {
		return false
	}
	w.seen[p] = true
	return true
}

// flat types hold no references.
func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.String, reflect.Interface, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Array:
		return flat(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !flat(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

func (w *scale) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		et := v.Type().Elem()
		if et == replacerType || et == regexpType || et.Size() == 0 {
			return
		}
		if w.once(v.Pointer()) {
			w.n += int(et.Size())
			w.value(v.Elem())
		}
	case reflect.Map:
		if v.IsNil() || !w.once(v.Pointer()) {
			return
		}
		t := v.Type()
		w.n += 48 + v.Len()*int(t.Key().Size()+t.Elem().Size()+8)
		fk, fe := flat(t.Key()), flat(t.Elem())
		if fk && fe {
			return
		}
		for it := v.MapRange(); it.Next(); {
			if !fk {
				w.value(it.Key())
			}
			if !fe {
				w.value(it.Value())
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !w.once(v.Pointer()) {
			return
		}
		w.n += v.Cap() * int(v.Type().Elem().Size())
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i))
		}
	case reflect.String:
		w.n += v.Len()
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if e := v.Elem(); e.Kind() != reflect.Pointer && e.Kind() != reflect.Map {
			w.n += int(e.Type().Size())
			w.value(e)
		} else {
			w.value(e)
		}
	case reflect.Chan:
		w.n += v.Len() * int(v.Type().Elem().Size())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.value(v.Field(i))
		}
	case reflect.Array:
		if !flat(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				w.value(v.Index(i))
			}
		}
	}
}
