package main

// jsoniter works through unsafe memory layouts and cannot be encoded; water uses it in its standard-library
// compatible configuration, so its entry points are modelled by executing the SSA of encoding/json instead.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const jsoniterPath = "github.com/json-iterator/go"

// jsonGlobals gives the package's configurations a value (its initialiser is skipped).
func (in *interp) jsonGlobals(p *ssa.Package) {
	ft := p.Type("frozenConfig")
	if ft == nil {
		return
	}
	for _, n := range []string{"ConfigDefault", "ConfigCompatibleWithStandardLibrary", "ConfigFastest"} {
		g := p.Var(n)
		if g == nil {
			continue
		}
		c := new(value)
		*c = zero(ft.Type())
		*in.global(g).addr = iface{in.canon(types.NewPointer(ft.Type())), c}
	}
}

func (in *interp) jsonMethod(typ, name string) *ssa.Function {
	t := types.NewPointer(in.P.namedType("encoding/json", typ))
	f := in.lookupMethod(t, nil, name)
	if f == nil {
		in.unsupported("no encoding/json %s.%s", typ, name)
	}
	return f
}

type jsonHold struct {
	v   value
	err value // what an encoder failed with: it writes nothing from then on
}

func init() {
	pre := "(*" + jsoniterPath + "."
	wrap := func(typ, std string) intrFn {
		return func(in *interp, fr *frame, a []value) value {
			p := new(value)
			*p = zero(in.P.namedType(jsoniterPath, typ))
			in.noteAlloc(p)
			v := in.callSSA(in.P.fn("encoding/json", std), []value{a[len(a)-1]})
			in.nativeState("json", p, func() any { return &jsonHold{v: v} })
			return p
		}
	}
	hold := func(in *interp, p value) *jsonHold {
		return in.nativeState("json", p, func() any { in.unsupported("json codec of unknown origin"); return nil }).(*jsonHold)
	}
	jsonIntr[pre+"frozenConfig).NewEncoder"] = wrap("Encoder", "NewEncoder")
	jsonIntr[pre+"frozenConfig).NewDecoder"] = wrap("Decoder", "NewDecoder")
	jsonIntr[jsoniterPath+".NewEncoder"] = wrap("Encoder", "NewEncoder")
	jsonIntr[jsoniterPath+".NewDecoder"] = wrap("Decoder", "NewDecoder")
	jsonIntr[pre+"Encoder).Encode"] = func(in *interp, fr *frame, a []value) value {
		h := hold(in, a[0])
		if h.err != nil {
			return h.err
		}
		r := in.callSSA(in.jsonMethod("Encoder", "Encode"), []value{h.v, a[1]})
		if r.(iface).t != nil {
			h.err = r
		}
		return r
	}
	jsonIntr[pre+"Decoder).Decode"] = func(in *interp, fr *frame, a []value) value {
		return in.callSSA(in.jsonMethod("Decoder", "Decode"), []value{hold(in, a[0]).v, a[1]})
	}
	un := func(in *interp, fr *frame, a []value) value {
		return in.callSSA(in.P.fn("encoding/json", "Unmarshal"), a[len(a)-2:])
	}
	jsonIntr[pre+"frozenConfig).Unmarshal"] = un
	jsonIntr[jsoniterPath+".Unmarshal"] = un
	ma := func(in *interp, fr *frame, a []value) value {
		return in.callSSA(in.P.fn("encoding/json", "Marshal"), a[len(a)-1:])
	}
	jsonIntr[pre+"frozenConfig).Marshal"] = ma
	jsonIntr[jsoniterPath+".Marshal"] = ma
}
