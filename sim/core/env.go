package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"

	"xpdfsim/rt"
)

const stepBudget = 200_000_000

var simEpoch = int64(1_600_000_000)

type clockState struct {
	base int64 // seconds
	jump []int64
	n    int
}

var clocks [8]clockState

// simNow: one step is one simulated microsecond; every reading may jump.
func simNow() (int64, int64) {
	c := &clocks[rt.Client()]
	s := rt.Steps()
	t := c.base
	if c.n < len(c.jump) {
		c.base += c.jump[c.n]
		c.n++
	}
	return t + int64(s/1_000_000), int64(s%1_000_000) * 1000
}

type nullFile struct{ handle }

var simStdout *os.File
var realStdout = os.Stdout

type devNull struct{}

func (devNull) Read(b []byte) (int, error)             { return 0, io.EOF }
func (devNull) Pread(b []byte, off int64) (int, error) { return 0, io.EOF }
func (devNull) Write(b []byte) (int, error) {
	d := hook.d()
	if d == nil {
		return len(b), nil
	}
	rt.Point()
	if d.frozen {
		return 0, syscall.EIO
	}
	k := len(b)
	var err error
	if d.stdoutFault != nil {
		if f := d.stdoutFault; f.Pos <= d.stdout.Len()+len(b) {
			// Pos: bytes accepted before everything fails
			if k = f.Pos - d.stdout.Len(); k < 0 {
				k = 0
			}
			f.Fired++
			err = errOf(f.Err)
		}
	}
	if d.stdout.Len() < 4<<20 {
		d.stdout.Write(b[:k])
	}
	return k, err
}
func (devNull) Pwrite(b []byte, off int64) (int, error)   { return len(b), nil }
func (devNull) Seek(off int64, whence int) (int64, error) { return 0, nil }
func (devNull) Stat() (os.FileInfo, error)                { return finfo{"stdout", &inode{}}, nil }
func (devNull) Truncate(size int64) error                 { return nil }
func (devNull) Sync() error                               { return nil }
func (devNull) Close() error                              { return nil }

func initSim() {
	simStdout = os.SimNewFile(devNull{}, "/dev/stdout")
}

// simOn/simOff bracket the code under test.
func simOn(d *Disk, mapSeed uint64, clock int64, jumps []int64, budget uint64) {
	installDisk(0, d)
	clocks[0] = clockState{base: simEpoch + clock, jump: jumps}
	time.SimNow = simNow
	os.SimHook = &hook
	os.Stdout = simStdout
	runtime.SimMapSeed = mapSeed | 1
	rt.Begin(budget)
}

func simOff() uint64 {
	s := rt.End()
	runtime.SimMapSeed = 0
	os.SimHook = nil
	time.SimNow = nil
	os.Stdout = realStdout
	installDisk(0, nil)
	return s
}

// Call is the outcome of one operation of the code under test.
type Call struct {
	Err    error
	Panic  string // panic value and top of stack
	Budget bool
	Alloc  bool // the budget is the one of allocated bytes
	Exit   *exitPanic
	Steps  uint64
}

func (c Call) bad() string {
	if c.Alloc {
		return "handles more bytes than a multiple of the input's"
	}
	if c.Budget {
		return fmt.Sprintf("no end within %d steps", c.Steps)
	}
	if c.Panic != "" {
		return "panic: " + c.Panic
	}
	return ""
}

func protect(f func() error) (c Call) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case exitPanic:
				c.Exit = &v
			case rt.BudgetExceeded:
				c.Budget = true
				c.Alloc = rt.OverAlloc()
				c.Steps = v.Steps
			default:
				c.Panic = fmt.Sprintf("%v%s", r, topFrames())
			}
		}
	}()
	c.Err = f()
	// the code may have recovered from these
	if rt.Over() {
		c.Budget = true
		c.Alloc = rt.OverAlloc()
		c.Steps = rt.Steps()
	}
	if d := hook.d(); d != nil && d.exited != nil {
		c.Exit = d.exited
	}
	return
}

func topFrames() string {
	st := string(debug.Stack())
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/mazzegi/xpdf") || strings.HasPrefix(l, "github.com/jung-kurt") || strings.HasPrefix(l, "encoding/") || strings.HasPrefix(l, "image/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return " at " + strings.Join(out, " < ")
}

// ---- readers and writers

// RdPlan decides how a reader delivers its data.
type RdPlan struct {
	Seed    uint64 `json:"seed,omitempty"`
	Mode    int    `json:"mode,omitempty"` // 0 whole, 1 bytes, 2 random, 3 random with empty reads, 4 4096 edges, 5 mixed
	EOFData bool   `json:"eofdata,omitempty"`
	FailAt  int    `json:"failat,omitempty"` // offset+1 at which Err is returned; 0 none
	Err     string `json:"err,omitempty"`
	ErrData bool   `json:"errdata,omitempty"` // the error comes together with data
	Cut     int    `json:"cut,omitempty"`     // offset+1 at which the stream just ends
}

type simReader struct {
	data    []byte
	pos     int
	p       RdPlan
	r       *Rng
	zeros   int
	calls   int
	failed  bool
	afterEr int
}

func newReader(data []byte, p RdPlan) *simReader {
	if p.Cut > 0 && p.Cut-1 < len(data) {
		data = data[:p.Cut-1]
	}
	return &simReader{data: data, p: p, r: NewRng(p.Seed + 99)}
}

func (s *simReader) Read(b []byte) (int, error) {
	rt.Point()
	s.calls++
	if s.failed {
		s.afterEr++
		return 0, s.err()
	}
	end := len(s.data)
	fail := false
	if s.p.FailAt > 0 && s.p.FailAt-1 <= end {
		end = s.p.FailAt - 1
		fail = true
	}
	rest := end - s.pos
	if rest <= 0 {
		if fail {
			s.failed = true
			return 0, s.err()
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	k := len(b)
	if k > rest {
		k = rest
	}
	switch s.p.Mode {
	case 1:
		k = 1
	case 2, 3, 5:
		if s.p.Mode == 3 && s.zeros < 5 && s.r.P(0.2) {
			s.zeros++
			return 0, nil
		}
		s.zeros = 0
		m := 1 + s.r.Intn(16)
		if s.p.Mode == 5 {
			m = 1 + s.r.Intn(1+s.r.Intn(6000))
		}
		if m < k {
			k = m
		}
	case 4:
		m := pick(s.r, []int{4095, 4096, 4097, 1, 511, 512, 513})
		if m < k {
			k = m
		}
	}
	copy(b, s.data[s.pos:s.pos+k])
	s.pos += k
	if s.pos == end {
		if fail && s.p.ErrData {
			s.failed = true
			return k, s.err()
		}
		if !fail && s.p.EOFData {
			return k, io.EOF
		}
	}
	return k, nil
}

func (s *simReader) err() error {
	switch s.p.Err {
	case "weof": // an error that wraps io.EOF
		return fmt.Errorf("connection reset: %w", io.EOF)
	}
	return errOf(s.p.Err)
}

// WrFault makes the writer fail at a byte offset.
type WrFault struct {
	At   int    `json:"at"`   // bytes accepted before the failure
	Kind string `json:"kind"` // err, short (n<len, nil error), errfull (all accepted, then an error)
	Err  string `json:"err"`
}

type simWriter struct {
	f      *WrFault
	buf    bytes.Buffer
	calls  int
	failed bool
	after  int
	fired  bool
}

func (w *simWriter) Write(b []byte) (int, error) {
	rt.Point()
	w.calls++
	if w.failed {
		w.after += len(b)
		if len(b) == 0 {
			w.after++
		}
		return 0, errors.New("injected: writer already failed")
	}
	if w.f != nil {
		room := w.f.At - w.buf.Len()
		switch w.f.Kind {
		case "errfull":
			if len(b) >= room {
				w.buf.Write(b)
				w.failed, w.fired = true, true
				return len(b), errOf(w.f.Err)
			}
		default:
			if len(b) > room {
				w.buf.Write(b[:room])
				w.failed, w.fired = true, true
				if w.f.Kind == "short" {
					return room, nil
				}
				return room, errOf(w.f.Err)
			}
		}
	}
	w.buf.Write(b)
	return len(b), nil
}

// ---- engine wrapper: forwards to the real engine and injects its failure

type simEngine struct {
	engine.Engine
	calls   int
	failAt  int // 1-based operation at which the backend fails; 0 never
	fired   bool
	failOp  string
	inside  int // 0 body, 1 header, 2 footer, 3 while writing
	writing bool
	ops     []string
	opsOn   bool
	depth   int
}

func (e *simEngine) op(name string) {
	rt.Point()
	e.calls++
	if e.opsOn {
		e.ops = append(e.ops, fmt.Sprintf("%s/%d", name, e.inside))
	}
	if e.calls == e.failAt {
		e.fired = true
		e.failOp = fmt.Sprintf("%s/%d", name, e.inside)
		e.Engine.ChangeFont(style.Font{Family: "no-such-family-injected", PointSize: 10})
	}
}

func (e *simEngine) WritePDF(w io.Writer) error {
	e.op("WritePDF")
	e.writing = true
	return e.Engine.WritePDF(w)
}
func (e *simEngine) CurrentPage() int { e.op("CurrentPage"); return e.Engine.CurrentPage() }
func (e *simEngine) OnHeader(f func()) {
	e.Engine.OnHeader(func() {
		o := e.inside
		e.inside = 1
		e.op("header")
		f()
		e.inside = o
	})
}
func (e *simEngine) OnFooter(f func()) {
	e.Engine.OnFooter(func() {
		o := e.inside
		e.inside = 2
		if e.writing {
			e.inside = 3
		}
		e.op("footer")
		f()
		e.inside = o
	})
}
func (e *simEngine) AddPage() {
	e.op("AddPage")
	e.depth++
	if e.depth > 40 { // pages opened inside pages: unbounded recursion
		panic(rt.BudgetExceeded{Steps: rt.Steps()})
	}
	e.Engine.AddPage()
	e.depth--
}
func (e *simEngine) SetX(x float64)             { e.op("SetX"); e.Engine.SetX(x) }
func (e *simEngine) SetY(y float64)             { e.op("SetY"); e.Engine.SetY(y) }
func (e *simEngine) GetXY() (float64, float64)  { e.op("GetXY"); return e.Engine.GetXY() }
func (e *simEngine) LineFeed(l float64)         { e.op("LineFeed"); e.Engine.LineFeed(l) }
func (e *simEngine) ChangeFont(f style.Font)    { e.op("ChangeFont"); e.Engine.ChangeFont(f) }
func (e *simEngine) SetTextColor(r, g, b int)   { e.op("SetTextColor"); e.Engine.SetTextColor(r, g, b) }
func (e *simEngine) TextWidth(s string) float64 { e.op("TextWidth"); return e.Engine.TextWidth(s) }
func (e *simEngine) WriteText(s string)         { e.op("WriteText"); e.Engine.WriteText(s) }
func (e *simEngine) PutImage(s string, x, y, w, h float64) {
	e.op("PutImage")
	e.Engine.PutImage(s, x, y, w, h)
}
func (e *simEngine) FillRect(x, y, w, h float64) { e.op("FillRect"); e.Engine.FillRect(x, y, w, h) }
func (e *simEngine) DrawPath()                   { e.op("DrawPath"); e.Engine.DrawPath() }

// ---- jobs

var hyphs = map[string]*hyphenation.Hyphenator{}

const smallPatterns = "a1b\n1na\n2ti\no1n\n3qxz\nhy1phen\n.re1c\ne1s\nu1m\ni1n\n"

func hyph(name string) *hyphenation.Hyphenator {
	if h, ok := hyphs[name]; ok {
		return h
	}
	var h *hyphenation.Hyphenator
	switch name {
	case "latin":
		h = hyphenation.NewLatin()
	case "small":
		h, _ = hyphenation.Load(strings.NewReader(smallPatterns))
	case "none":
		h, _ = hyphenation.Load(strings.NewReader(""))
	default:
		h = hyphenation.NewEnUs()
	}
	hyphs[name] = h
	return h
}

const ufFamily = "gofont"

func fontDisk(d *Disk) {
	for _, n := range []string{"Regular", "Bold", "Italic", "Bold-Italic", "Mono"} {
		d.Put("/sim/fonts/Go-"+n+".ttf", asset("Go-"+n+".ttf"))
	}
}

// fullRegistry registers all styles of the family, in one of 24 orders.
func fullRegistry(order int) *font.Registry {
	reg := font.NewRegistry()
	fs := []font.Descriptor{
		{Name: ufFamily, Style: font.Regular, FilePath: "/sim/fonts/Go-Regular.ttf"},
		{Name: ufFamily, Style: font.Bold, FilePath: "/sim/fonts/Go-Bold.ttf"},
		{Name: ufFamily, Style: font.Italic, FilePath: "/sim/fonts/Go-Italic.ttf"},
		{Name: ufFamily, Style: font.BoldItalic, FilePath: "/sim/fonts/Go-Bold-Italic.ttf"},
	}
	if order < 0 {
		order = -order
	}
	for n := len(fs); n > 0; n-- {
		k := order % n
		order /= n
		reg.Register(fs[k])
		fs = append(fs[:k:k], fs[k+1:]...)
	}
	return reg
}

// Job is a render of one document.
type Job struct {
	D       *Disk
	XD      *xdoc.Document
	Hyph    string
	UF      bool
	Wr      *WrFault
	FailAt  int
	MapSeed uint64
	Clock   int64
	Jumps   []int64
	OpsOn   bool
	Budget  uint64
	WD      string
}

type Out struct {
	Call
	W      *simWriter
	Eng    *simEngine
	NewErr error
}

func (o *Out) Bytes() []byte { return o.W.buf.Bytes() }

var stats = map[string]int{}

func (j *Job) render() *Out {
	o := &Out{W: &simWriter{f: j.Wr}}
	if j.Budget == 0 {
		j.Budget = stepBudget
	}
	if j.D == nil {
		j.D = NewDisk("/sim/work")
	}
	if j.UF {
		fontDisk(j.D)
	}
	if j.WD == "" {
		j.WD = "/sim/work"
	}
	h := hyph(j.Hyph)
	simOn(j.D, j.MapSeed, j.Clock, j.Jumps, j.Budget)
	o.Call = protect(func() error {
		reg := font.NewRegistry()
		if j.UF {
			reg = fullRegistry(0)
		}
		e, err := engine.NewFPDF(reg, j.XD)
		if err != nil {
			o.NewErr = err
			return err
		}
		o.Eng = &simEngine{Engine: e, failAt: j.FailAt, opsOn: j.OpsOn}
		p := xpdf.NewProcessor(o.Eng, h, j.XD, j.WD)
		return p.Process(o.W)
	})
	o.Steps = simOff()
	stats["renders"]++
	stats["steps"] += int(o.Steps)
	return o
}

// load loads the document from memory, no faults.
func load(xml string) (*xdoc.Document, Call) {
	var d *xdoc.Document
	simOn(NewDisk("/sim/work"), 1, 0, nil, stepBudget)
	c := protect(func() error {
		var err error
		d, err = xdoc.Load(strings.NewReader(xml))
		return err
	})
	c.Steps = simOff()
	return d, c
}
