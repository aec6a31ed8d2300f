package main

// A small file system and standard output, per path. It replaces the os package's system calls; everything above
// them (net/http's file serving, mime/multipart's temporary files, fmt's printing) is executed.

import (
	"fmt"
	"go/types"
	pathpkg "path"
	"sort"
	"strings"
	"syscall"
)

const vfsRoot = "/vfs"

type vnode struct {
	dir   bool
	data  []value
	mode  uint64
	mtime value
}

type vfs struct {
	nodes map[string]*vnode
	dirs  int
	temps int
	out   []value
	links map[string]string // symbolic links, whose nodes are those of their targets
	full  bool // no file takes any more bytes
}

type vfile struct {
	n      *vnode
	name   value
	pos    int
	flag   int
	closed bool
}

func (in *interp) vfs() *vfs {
	if s, ok := in.native["vfs"]; ok {
		return s.(*vfs)
	}
	f := &vfs{nodes: map[string]*vnode{"/": {dir: true}, "/tmp": {dir: true}, vfsRoot: {dir: true}}}
	in.native["vfs"] = f
	return f
}

func (in *interp) errno(e syscall.Errno) value {
	return iface{in.canon(in.P.namedType("syscall", "Errno")), uint64(e)}
}

func (in *interp) pathErr(op string, name value, e syscall.Errno) value {
	t := in.P.namedType("io/fs", "PathError")
	p := new(value)
	*p = zero(t)
	in.noteAlloc(p)
	*in.fieldPtr(p, t, "Op") = op
	*in.fieldPtr(p, t, "Path") = name
	*in.fieldPtr(p, t, "Err") = in.errno(e)
	return iface{in.canon(types.NewPointer(t)), p}
}

// lookup resolves a possibly symbolic name; it forks over the existing files.
func (in *interp) vlookup(name value) (*vnode, string, syscall.Errno) {
	f := in.vfs()
	if strLen(name) == 0 {
		return nil, "", syscall.ENOENT
	}
	var nul []*Term
	for i := 0; i < strLen(name); i++ {
		nul = append(nul, in.termOf(in.eqByte(strAt(name, i), uint64(0)), 0))
	}
	if in.decide(in.tc.Or(nul...)) {
		return nil, "", syscall.EINVAL
	}
	var clean value
	if s, ok := name.(string); ok {
		clean = pathpkg.Clean(s)
	} else {
		clean = realCall(in, "path", "Clean", []value{name})
	}
	if !in.truth(in.eqByte(strAt(clean, 0), uint64('/'))) {
		clean = in.strConcat("/cwd/", clean)
	}
	last := strAt(name, strLen(name)-1)
	names := make([]string, 0, len(f.nodes))
	for k := range f.nodes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if strLen(clean) == len(k) && in.truth(in.strEq(clean, k)) {
			n := f.nodes[k]
			if !n.dir && in.truth(in.eqByte(last, uint64('/'))) {
				return nil, k, syscall.ENOTDIR
			}
			return n, k, 0
		}
	}
	// below a file?
	for _, k := range names {
		if n := f.nodes[k]; !n.dir && strLen(clean) > len(k) && in.truth(in.strEq(in.strSlice(clean, 0, len(k)), k)) && in.truth(in.eqByte(strAt(clean, len(k)), uint64('/'))) {
			return nil, "", syscall.ENOTDIR
		}
	}
	if s, ok := clean.(string); ok {
		return nil, s, syscall.ENOENT
	}
	return nil, "", syscall.ENOENT
}

func (in *interp) strConcat(a, b value) value {
	var l []value
	for i := 0; i < strLen(a); i++ {
		l = append(l, strAt(a, i))
	}
	for i := 0; i < strLen(b); i++ {
		l = append(l, strAt(b, i))
	}
	return mkString(l)
}

func (in *interp) strSlice(s value, lo, hi int) value {
	var l []value
	for i := lo; i < hi; i++ {
		l = append(l, strAt(s, i))
	}
	return mkString(l)
}

func (in *interp) newOsFile(n *vnode, name value, flag int) value {
	p := new(value)
	*p = zero(in.P.namedType("os", "File"))
	in.noteAlloc(p)
	in.nativeState("osfile", p, func() any { return &vfile{n: n, name: name, flag: flag} })
	return p
}

func (in *interp) vopen(name value, flag int, perm uint64) value {
	nilF := (*value)(nil)
	n, k, e := in.vlookup(name)
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if e == syscall.ENOENT && flag&syscall.O_CREAT != 0 {
		if k == "" {
			in.unsupported("creating a file with a symbolic name")
		}
		if d := in.vfs().nodes[pathpkg.Dir(k)]; d == nil {
			return tuple{nilF, in.pathErr("open", name, syscall.ENOENT)}
		}
		n = &vnode{mode: perm &^ 0o022, mtime: uint64(1700000000)}
		in.vfs().nodes[k] = n
		e = 0
	} else if e == 0 {
		switch {
		case flag&syscall.O_EXCL != 0 && flag&syscall.O_CREAT != 0:
			e = syscall.EEXIST
		case n.dir && wr:
			e = syscall.EISDIR
		case flag&syscall.O_TRUNC != 0 && !n.dir:
			n.data = nil
		}
	}
	if e != 0 {
		return tuple{nilF, in.pathErr("open", name, e)}
	}
	return tuple{in.newOsFile(n, name, flag), iface{}}
}

func (in *interp) fileInfo(n *vnode, name value) value {
	t := in.P.namedType("os", "fileStat")
	p := new(value)
	*p = zero(t)
	in.noteAlloc(p)
	s := name
	if c, ok := name.(string); ok {
		s = pathpkg.Base(c)
	} else {
		s = realCall(in, "path", "Base", []value{name})
	}
	*in.fieldPtr(p, t, "name") = s
	*in.fieldPtr(p, t, "size") = uint64(len(n.data))
	m := n.mode
	if n.dir {
		m = 1<<31 | 0o755
	}
	*in.fieldPtr(p, t, "mode") = m
	mt := n.mtime
	if mt == nil {
		mt = uint64(1600000000)
	}
	*in.fieldPtr(p, t, "modTime") = in.callSSA(in.P.fn("time", "Unix"), []value{mt, uint64(0)})
	return iface{in.canon(types.NewPointer(t)), p}
}

func (in *interp) vf(p value) *vfile {
	q, ok := p.(*value)
	if !ok || q == nil {
		return nil
	}
	if s, ok := in.native[fmt.Sprintf("osfile:%p", q)]; ok {
		return s.(*vfile)
	}
	return nil
}

func (in *interp) vwrite(f *vfile, b []value) (int, syscall.Errno) {
	if f.closed {
		return 0, syscall.EBADF
	}
	if f.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	if in.vfs().full {
		if len(b) == 0 {
			return 0, 0
		}
		return 0, syscall.EFBIG
	}
	d := append([]value(nil), f.n.data...)
	if f.flag&syscall.O_APPEND != 0 {
		f.pos = len(d)
	}
	for len(d) < f.pos {
		d = append(d, zeroInt)
	}
	d = append(d[:f.pos], append(append([]value(nil), b...), d[min(len(d), f.pos+len(b)):]...)...)
	f.n.data = d
	f.pos += len(b)
	return len(b), 0
}

func (in *interp) vtrunc(n *vnode, size int) {
	d := append([]value(nil), n.data[:min(size, len(n.data))]...)
	for len(d) < size {
		d = append(d, zeroInt)
	}
	n.data = d
}

func (in *interp) eof() value {
	return *in.globalOf("io", "EOF")
}

func (in *interp) globalOf(pkg, name string) *value {
	p := in.P.byPath[pkg]
	in.ensureInit(in.pkgOf(p))
	return in.global(p.Var(name)).addr
}

func init() {
	I := intrinsics
	I["os.NewFile"] = func(in *interp, fr *frame, a []value) value {
		p := new(value)
		*p = zero(in.P.namedType("os", "File"))
		return p
	}
	I["os.OpenFile"] = func(in *interp, fr *frame, a []value) value { return in.vopen(a[0], in.concInt(a[1]), in.concU(a[2])) }
	I["os.Open"] = func(in *interp, fr *frame, a []value) value { return in.vopen(a[0], 0, 0) }
	I["os.Create"] = func(in *interp, fr *frame, a []value) value {
		return in.vopen(a[0], syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0o666)
	}
	st := func(in *interp, fr *frame, a []value) value {
		n, _, e := in.vlookup(a[0])
		if e != 0 {
			return tuple{iface{}, in.pathErr("stat", a[0], e)}
		}
		return tuple{in.fileInfo(n, a[0]), iface{}}
	}
	I["os.Stat"] = st
	I["os.Lstat"] = func(in *interp, fr *frame, a []value) value {
		n, k, e := in.vlookup(a[0])
		if e != 0 {
			return tuple{iface{}, in.pathErr("lstat", a[0], e)}
		}
		if to, ok := in.vfs().links[k]; ok {
			return tuple{in.fileInfo(&vnode{data: make([]value, len(to)), mode: 1<<27 | 0o777, mtime: uint64(1700000000)}, a[0]), iface{}}
		}
		return tuple{in.fileInfo(n, a[0]), iface{}}
	}
	I["os.ReadFile"] = func(in *interp, fr *frame, a []value) value {
		n, _, e := in.vlookup(a[0])
		if e == 0 && n.dir {
			e = syscall.EISDIR
		}
		if e != 0 {
			return tuple{[]value(nil), in.pathErr("open", a[0], e)}
		}
		return tuple{append([]value{}, n.data...), iface{}}
	}
	I["os.WriteFile"] = func(in *interp, fr *frame, a []value) value {
		r := in.vopen(a[0], syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, in.concU(a[2])).(tuple)
		if r[1].(iface).t != nil {
			return r[1]
		}
		if _, e := in.vwrite(in.vf(r[0]), a[1].([]value)); e != 0 {
			return in.pathErr("write", a[0], e)
		}
		return iface{}
	}
	empty := func(in *interp, k string) bool {
		for o := range in.vfs().nodes {
			if strings.HasPrefix(o, k+"/") {
				return false
			}
		}
		return true
	}
	I["os.Remove"] = func(in *interp, fr *frame, a []value) value {
		n, k, e := in.vlookup(a[0])
		if e != 0 {
			return in.pathErr("remove", a[0], e)
		}
		if n.dir && !empty(in, k) {
			return in.pathErr("remove", a[0], syscall.ENOTEMPTY)
		}
		delete(in.vfs().nodes, k)
		return iface{}
	}
	I["os.RemoveAll"] = func(in *interp, fr *frame, a []value) value {
		n, k, e := in.vlookup(a[0])
		if e != 0 {
			return iface{}
		}
		if n.dir {
			for o := range in.vfs().nodes {
				if strings.HasPrefix(o, k+"/") {
					delete(in.vfs().nodes, o)
				}
			}
		}
		delete(in.vfs().nodes, k)
		return iface{}
	}
	linkErr := func(in *interp, op string, a []value, e syscall.Errno) value {
		t := in.P.namedType("os", "LinkError")
		p := new(value)
		*p = zero(t)
		in.noteAlloc(p)
		*in.fieldPtr(p, t, "Op") = op
		*in.fieldPtr(p, t, "Old") = a[0]
		*in.fieldPtr(p, t, "New") = a[1]
		*in.fieldPtr(p, t, "Err") = in.errno(e)
		return iface{in.canon(types.NewPointer(t)), p}
	}
	target := func(in *interp, op string, a []value) (*vnode, string, string, *vnode, value) {
		n, k, e := in.vlookup(a[0])
		if e == 0 {
			o, t, e2 := in.vlookup(a[1])
			switch {
			case e2 != 0 && e2 != syscall.ENOENT:
				e = e2
			case e2 == syscall.ENOENT && t == "":
				in.unsupported("a symbolic name for a new file")
			case in.vfs().nodes[pathpkg.Dir(t)] == nil:
				e = syscall.ENOENT
			default:
				return n, k, t, o, nil
			}
		}
		return nil, "", "", nil, linkErr(in, op, a, e)
	}
	I["os.Rename"] = func(in *interp, fr *frame, a []value) value {
		n, k, t, o, err := target(in, "rename", a)
		switch {
		case err != nil:
			return err
		case o == n:
			return iface{}
		case o != nil && o.dir && (!n.dir || !empty(in, t)):
			return linkErr(in, "rename", a, syscall.EEXIST)
		case o != nil && !o.dir && n.dir:
			return linkErr(in, "rename", a, syscall.ENOTDIR)
		case n.dir && strings.HasPrefix(t, k+"/"):
			return linkErr(in, "rename", a, syscall.EINVAL)
		}
		f := in.vfs()
		move := map[string]string{k: t}
		for o := range f.nodes {
			if strings.HasPrefix(o, k+"/") {
				move[o] = t + o[len(k):]
			}
		}
		for o, t := range move {
			f.nodes[t] = f.nodes[o]
			delete(f.nodes, o)
		}
		return iface{}
	}
	I["os.Link"] = func(in *interp, fr *frame, a []value) value {
		n, _, t, o, err := target(in, "link", a)
		switch {
		case err != nil:
			return err
		case o != nil:
			return linkErr(in, "link", a, syscall.EEXIST)
		case n.dir:
			return linkErr(in, "link", a, syscall.EPERM)
		}
		in.vfs().nodes[t] = n
		return iface{}
	}
	I["os.Mkdir"] = func(in *interp, fr *frame, a []value) value {
		_, k, e := in.vlookup(a[0])
		switch {
		case e == 0:
			e = syscall.EEXIST
		case e != syscall.ENOENT:
		case k == "":
			in.unsupported("a symbolic name for a new directory")
		case in.vfs().nodes[pathpkg.Dir(k)] != nil:
			in.vfs().nodes[k] = &vnode{dir: true}
			return iface{}
		}
		return in.pathErr("mkdir", a[0], e)
	}
	I["os.MkdirAll"] = func(in *interp, fr *frame, a []value) value {
		n, k, e := in.vlookup(a[0])
		switch {
		case e == 0 && n.dir:
			return iface{}
		case e == 0:
			e = syscall.ENOTDIR
		case e != syscall.ENOENT:
		case k == "":
			in.unsupported("a symbolic name for a new directory")
		default:
			for d := k; in.vfs().nodes[d] == nil; d = pathpkg.Dir(d) {
				in.vfs().nodes[d] = &vnode{dir: true}
			}
			return iface{}
		}
		return in.pathErr("mkdir", a[0], e)
	}
	I["os.Chmod"] = func(in *interp, fr *frame, a []value) value {
		n, _, e := in.vlookup(a[0])
		if e != 0 {
			return in.pathErr("chmod", a[0], e)
		}
		n.mode = in.concU(a[1]) & 0o777
		return iface{}
	}
	I["os.Truncate"] = func(in *interp, fr *frame, a []value) value {
		n, _, e := in.vlookup(a[0])
		if e == 0 && n.dir {
			e = syscall.EISDIR
		}
		if e != 0 {
			return in.pathErr("truncate", a[0], e)
		}
		in.vtrunc(n, in.concInt(a[1]))
		return iface{}
	}
	I["os.CreateTemp"] = func(in *interp, fr *frame, a []value) value {
		f := in.vfs()
		f.temps++
		dir, pat := goStr(a[0]), goStr(a[1])
		if dir == "" {
			dir = "/tmp"
		}
		if !strings.Contains(pat, "*") {
			pat += "*"
		}
		i := strings.LastIndex(pat, "*")
		k := fmt.Sprintf("%s/%s7%d%s", pathpkg.Clean(dir), pat[:i], f.temps, pat[i+1:])
		if d := f.nodes[pathpkg.Clean(dir)]; d == nil || !d.dir {
			return tuple{(*value)(nil), in.pathErr("open", k, syscall.ENOENT)}
		}
		n := &vnode{mode: 0o600}
		f.nodes[k] = n
		return tuple{in.newOsFile(n, k, syscall.O_RDWR), iface{}}
	}
	I["os.TempDir"] = func(in *interp, fr *frame, a []value) value { return "/tmp" }
	I["os.Getwd"] = func(in *interp, fr *frame, a []value) value { return tuple{"/cwd", iface{}} }
	F := func(n string, f func(in *interp, p value, f *vfile, a []value) value) {
		I["(*os.File)."+n] = func(in *interp, fr *frame, a []value) value {
			q, _ := a[0].(*value)
			if q == nil {
				in.unsupported("method of a nil *os.File")
			}
			return f(in, a[0], in.vf(a[0]), a)
		}
	}
	F("Name", func(in *interp, p value, f *vfile, a []value) value {
		if f == nil {
			return "/dev/stdout"
		}
		return f.name
	})
	F("Close", func(in *interp, p value, f *vfile, a []value) value {
		if f == nil {
			return iface{}
		}
		if f.closed {
			t := in.P.namedType("io/fs", "PathError")
			e := in.pathErr("close", f.name, 0)
			*in.fieldPtr(e.(iface).v, t, "Err") = copyVal(*in.globalOf("io/fs", "ErrClosed"))
			return e
		}
		f.closed = true
		return iface{}
	})
	F("Stat", func(in *interp, p value, f *vfile, a []value) value {
		if f == nil {
			in.unsupported("stat of a standard stream")
		}
		if f.closed {
			return tuple{iface{}, in.pathErr("stat", f.name, syscall.EBADF)}
		}
		return tuple{in.fileInfo(f.n, f.name), iface{}}
	})
	read := func(in *interp, f *vfile, b []value, pos int) (int, value) {
		if f == nil {
			in.unsupported("read of a standard stream")
		}
		if f.closed || f.flag&syscall.O_WRONLY != 0 {
			return 0, in.pathErr("read", f.name, syscall.EBADF)
		}
		if f.n.dir {
			return 0, in.pathErr("read", f.name, syscall.EISDIR)
		}
		if len(b) == 0 {
			return 0, iface{}
		}
		if pos >= len(f.n.data) {
			return 0, copyVal(in.eof())
		}
		n := min(len(b), len(f.n.data)-pos)
		for i := 0; i < n; i++ {
			in.store(&b[i], f.n.data[pos+i])
		}
		return n, iface{}
	}
	F("Read", func(in *interp, p value, f *vfile, a []value) value {
		n, e := read(in, f, a[1].([]value), f.pos)
		f.pos += n
		return tuple{uint64(n), e}
	})
	F("ReadAt", func(in *interp, p value, f *vfile, a []value) value {
		b := a[1].([]value)
		n, e := read(in, f, b, in.concInt(a[2]))
		if e.(iface).t == nil && n < len(b) {
			e = copyVal(in.eof())
		}
		return tuple{uint64(n), e}
	})
	wr := func(in *interp, p value, f *vfile, b []value) value {
		if f == nil {
			v := in.vfs()
			v.out = append(v.out, b...)
			return tuple{uint64(len(b)), iface{}}
		}
		n, e := in.vwrite(f, b)
		if e != 0 {
			return tuple{uint64(n), in.pathErr("write", f.name, e)}
		}
		return tuple{uint64(n), iface{}}
	}
	F("Write", func(in *interp, p value, f *vfile, a []value) value { return wr(in, p, f, a[1].([]value)) })
	F("WriteString", func(in *interp, p value, f *vfile, a []value) value {
		var b []value
		for i := 0; i < strLen(a[1]); i++ {
			b = append(b, strAt(a[1], i))
		}
		return wr(in, p, f, b)
	})
	F("Seek", func(in *interp, p value, f *vfile, a []value) value {
		off := in.concInt(a[1])
		switch in.concInt(a[2]) {
		case 1:
			off += f.pos
		case 2:
			off += len(f.n.data)
		}
		if off < 0 {
			return tuple{uint64(0), in.pathErr("seek", f.name, syscall.EINVAL)}
		}
		f.pos = off
		return tuple{uint64(off), iface{}}
	})
	F("Chmod", func(in *interp, p value, f *vfile, a []value) value {
		f.n.mode = in.concU(a[1]) & 0o777
		return iface{}
	})
	F("Truncate", func(in *interp, p value, f *vfile, a []value) value {
		if f.closed || f.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
			return in.pathErr("truncate", f.name, syscall.EINVAL)
		}
		in.vtrunc(f.n, in.concInt(a[1]))
		return iface{}
	})
	for _, n := range []string{"Sync", "Chown", "SetDeadline"} {
		F(n, func(in *interp, p value, f *vfile, a []value) value { return iface{} })
	}
	copyLoop := func(in *interp, rd func(b []value) (int, value), w func(b []value) value) value {
		total := uint64(0)
		buf := make([]value, 512)
		for i := range buf {
			buf[i] = zeroInt
		}
		in.noteSlice(buf)
		for k := 0; k < 100000; k++ {
			n, e := rd(buf)
			if n > 0 {
				r := w(append([]value(nil), buf[:n]...)).(tuple)
				total += in.concU(r[0])
				if r[1].(iface).t != nil {
					return tuple{total, r[1]}
				}
			}
			if ei := e.(iface); ei.t != nil {
				if in.truth(in.equals(nil, ei, copyVal(in.eof()))) {
					e = iface{}
				}
				return tuple{total, e}
			}
		}
		in.unsupported("endless copy")
		return nil
	}
	F("ReadFrom", func(in *interp, p value, f *vfile, a []value) value {
		src := a[1].(iface)
		m := in.lookupMethod(src.t, nil, "Read")
		return copyLoop(in, func(b []value) (int, value) {
			r := in.callSSA(m, []value{copyVal(src.v), b}).(tuple)
			return in.concInt(r[0]), r[1]
		}, func(b []value) value { return wr(in, p, f, b) })
	})
	F("WriteTo", func(in *interp, p value, f *vfile, a []value) value {
		dst := a[1].(iface)
		m := in.lookupMethod(dst.t, nil, "Write")
		return copyLoop(in, func(b []value) (int, value) {
			n, e := read(in, f, b, f.pos)
			f.pos += n
			return n, e
		}, func(b []value) value {
			in.noteSlice(b)
			return in.callSSA(m, []value{copyVal(dst.v), b})
		})
	})
	I["mime/multipart.readMIMEHeader"] = func(in *interp, fr *frame, a []value) value {
		return realCall(in, "net/textproto", "readMIMEHeader", a)
	}
	// harness side
	H := func(n string, f intrFn) { I[harnessPath+"."+n] = f }
	H("vDir", func(in *interp, fr *frame, a []value) value {
		f := in.vfs()
		f.dirs++
		k := fmt.Sprintf("%s/d%d", vfsRoot, f.dirs)
		f.nodes[k] = &vnode{dir: true}
		return k
	})
	H("vLink", func(in *interp, fr *frame, a []value) value {
		f, to, k := in.vfs(), goStr(a[0]), pathpkg.Clean(goStr(a[1]))
		if f.links == nil {
			f.links = map[string]string{}
		}
		f.links[k] = to
		f.nodes[k] = f.nodes[to]
		return nil
	})
	H("vPutAt", func(in *interp, fr *frame, a []value) value {
		k := pathpkg.Clean(goStr(a[0]))
		for d := pathpkg.Dir(k); in.vfs().nodes[d] == nil; d = pathpkg.Dir(d) {
			in.vfs().nodes[d] = &vnode{dir: true}
		}
		var b []value
		for i := 0; i < strLen(a[1]); i++ {
			b = append(b, strAt(a[1], i))
		}
		in.vfs().nodes[k] = &vnode{data: b, mode: 0o644, mtime: a[2]}
		return nil
	})
	// the limit given to the last multipart parsing; the parsing itself is executed
	I["(*net/http.Request).ParseMultipartForm"] = func(in *interp, fr *frame, a []value) value {
		in.native["mplimit"] = a[1]
		return in.realFn(in.lookupMethod(types.NewPointer(in.P.namedType("net/http", "Request")), nil, "ParseMultipartForm"), a)
	}
	H("vLimit", func(in *interp, fr *frame, a []value) value {
		if v, ok := in.native["mplimit"]; ok {
			return v
		}
		return ^uint64(0)
	})
	H("vFull", func(in *interp, fr *frame, a []value) value {
		in.vfs().full = true
		defer func() { in.vfs().full = false }()
		in.call(a[0], nil, fr)
		return nil
	})
	H("vMkdir", func(in *interp, fr *frame, a []value) value {
		in.vfs().nodes[pathpkg.Clean(goStr(a[0]))] = &vnode{dir: true}
		return nil
	})
	H("vGet", func(in *interp, fr *frame, a []value) value {
		n := in.vfs().nodes[pathpkg.Clean(goStr(a[0]))]
		if n == nil || n.dir {
			return tuple{"", uint64(0), false}
		}
		return tuple{mkString(append([]value(nil), n.data...)), n.mode, true}
	})
	H("vLs", func(in *interp, fr *frame, a []value) value {
		var l []string
		for k := range in.vfs().nodes {
			if pathpkg.Dir(k) == pathpkg.Clean(goStr(a[0])) {
				l = append(l, pathpkg.Base(k))
			}
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	})
	H("vCalm", func(in *interp, fr *frame, a []value) value {
		p := in.path
		p.calm++
		in.call(a[0], nil, fr)
		p.calm--
		return nil
	})
	H("vLogs", func(in *interp, fr *frame, a []value) value {
		old, had := in.native["logs"]
		var l value = ""
		in.native["logs"] = &l
		in.call(a[0], nil, fr)
		delete(in.native, "logs")
		if had {
			in.native["logs"] = old
		}
		return l
	})
	H("vCapture", func(in *interp, fr *frame, a []value) value {
		f := in.vfs()
		saved := f.out
		f.out = nil
		in.call(a[0], nil, fr)
		r := mkString(append([]value(nil), f.out...))
		f.out = saved
		return r
	})
}
