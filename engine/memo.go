package main

// Results of pure library functions on concrete arguments, computed once per worker by executing the real code.

func init() {
	intrinsics["regexp.compile"] = func(in *interp, fr *frame, a []value) value {
		s, ok := a[0].(string)
		if !ok || in.spec {
			return realCall(in, "regexp", "compile", a)
		}
		key := "regexp:" + s + ":" + in.showConcrete(a[1], nil) + in.showConcrete(a[2], nil)
		if r, ok := in.memo[key]; ok {
			return copyVal(r)
		}
		sl := in.logging
		var sf *frameMon
		if in.path != nil {
			sf = in.path.frame
			in.path.frame = nil
		}
		in.logging = false
		done := false
		defer func() {
			in.logging = sl
			if in.path != nil {
				in.path.frame = sf
			}
			_ = done
		}()
		r := realCall(in, "regexp", "compile", a)
		if t, ok := r.(tuple); ok && len(t) == 2 {
			if e, ok := t[1].(iface); ok && e.t == nil {
				in.memo[key] = r
			}
		}
		return copyVal(r)
	}
}
