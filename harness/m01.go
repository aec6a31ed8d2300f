package main

import (
	"os"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

type fileTarget struct {
	K string `form:"k"`
}

// onDisk reports whether the uploaded file was put into a temporary file.
func onDisk(c *water.Context) bool {
	if c.Request.MultipartForm == nil || len(c.Request.MultipartForm.File["f"]) != 1 {
		vFail("the uploaded file is not found")
	}
	f, err := c.Request.MultipartForm.File["f"][0].Open()
	vAssert(err == nil, "the uploaded file cannot be opened")
	_, disk := f.(*os.File)
	f.Close()
	c.Request.MultipartForm.RemoveAll()
	return disk
}

const mParsers = 8

// parseBy has the multipart form parsed in one of the ways a handler can choose.
func parseBy(c *water.Context, k int) {
	switch k {
	case 0:
		c.ParseFormOrMultipartForm()
	case 1:
		c.Query("k")
	case 2:
		c.QueryMap("k")
	case 3:
		c.DefaultQueryArray("k", nil)
	case 4:
		vAssert(c.Bind(&fileTarget{}) == nil, "binding fails")
	case 5:
		vAssert(c.BindWith(&fileTarget{}, binding.FormMultipart) == nil, "binding fails")
	case 6:
		vAssert(c.BindWith(&fileTarget{}, binding.Form) == nil, "binding fails")
	case 7:
		f, _, err := c.FormFile("f")
		vAssert(err == nil, "the uploaded file is not found")
		f.Close()
	}
}

func upload(e *water.Engine, size int) {
	q := multiReq(part("f", "n", strings.Repeat("x", size)) + "--XX--\r\n")
	serve(e, q)
}

// the configured limit decides what is kept in memory, however the form comes to be parsed
func H_M01_configured() {
	vNoise()
	limit := vInt("limit", 0, vB(9, 30))
	size := vChoose("size", vB(11, 40))
	how := vChoose("how", mParsers)
	ran := 0
	disk := false
	r := water.NewRouter()
	r.POST("/up", func(c *water.Context) {
		ran++
		parseBy(c, how)
		disk = onDisk(c)
	})
	other := water.NewRouter() // another application of the same process does not matter
	other.POST("/up", func(c *water.Context) { c.ParseFormOrMultipartForm() })
	oe := other.Handler(water.WithMaxMultipartMemory(7))
	opts := []water.Option{water.WithMaxMultipartMemory(int64(limit))}
	if vChoose("twice", 2) == 1 {
		opts = []water.Option{water.WithMaxMultipartMemory(1), water.WithStaticRouter(true), water.WithMaxMultipartMemory(int64(limit))}
	}
	e := r.Handler(opts...)
	if vChoose("later", 2) == 1 {
		oe = other.Handler(water.WithMaxMultipartMemory(3))
	}
	upload(oe, 2)
	upload(e, size)
	vAssert(ran == 1, "the handler did not run")
	vAssert(disk == (size > limit), "the memory limit in force is not the configured one")
	vReach("end")
}

// without the option the limit is 32 MB, whatever other applications were configured to
func H_M01_default() {
	how := []int{0, 4, 7, 1, 2, 3, 5, 6}[vChoose("how", vB(3, mParsers))]
	first := vChoose("first", vB(2, 3))
	const want = 32 << 20
	mk := func(opts ...water.Option) (*water.Engine, *bool) {
		disk := new(bool)
		r := water.NewRouter()
		r.POST("/up", func(c *water.Context) {
			parseBy(c, how)
			*disk = onDisk(c)
		})
		return r.Handler(opts...), disk
	}
	var e *water.Engine
	var disk *bool
	if first == 0 {
		e, disk = mk()
	}
	mk(water.WithMaxMultipartMemory(5))
	if first == 1 {
		e, disk = mk()
	} else if first == 2 {
		e, disk = mk(water.WithStaticRouter(true), water.WithNoFoundHandlers(func(*water.Context) {}))
	}
	if vSym() {
		upload(e, 3)
		vAssert(vLimit() == want && !*disk, "the default limit is not 32 MB")
	} else {
		upload(e, want)
		vAssert(!*disk, "the default limit is not 32 MB")
		upload(e, want+1)
		vAssert(*disk, "the default limit is not 32 MB")
	}
	vReach("end")
}

// the multipart binders on their own: the limit set for the package, 32 MB by default
func H_M01_direct() {
	defer binding.SetMultipartMemory(32 << 20)
	set := vChoose("set", 3)
	limit, size := 0, 0
	if set > 0 {
		limit, size = vInt("limit", 0, vB(9, 30)), vChoose("size", vB(11, 40))
	}
	old := binding.Validator
	binding.Validator = nil
	defer func() { binding.Validator = old }()
	two := vChoose("two", 2) == 1
	if set > 0 {
		if set == 2 {
			binding.SetMultipartMemory(4)
		}
		binding.SetMultipartMemory(int64(limit))
	}
	try := func(size int) bool {
		q := multiReq(part("f", "n", strings.Repeat("x", size)) + "--XX--\r\n")
		var err error
		if two {
			err = binding.FormMultipart.Bind2(q, &fileTarget{})
		} else {
			err = binding.FormMultipart.Bind(q, &fileTarget{})
		}
		vAssert(err == nil, "binding fails")
		f, err := q.MultipartForm.File["f"][0].Open()
		vAssert(err == nil, "the uploaded file cannot be opened")
		_, disk := f.(*os.File)
		f.Close()
		q.MultipartForm.RemoveAll()
		return disk
	}
	if set > 0 {
		vAssert(try(size) == (size > limit), "the memory limit in force is not the configured one")
	} else if vSym() {
		try(3)
		vAssert(vLimit() == 32<<20, "the default limit is not 32 MB")
	} else {
		vAssert(!try(32<<20) && try(32<<20+1), "the default limit is not 32 MB")
	}
	vReach("end")
}
