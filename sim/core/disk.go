package core

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"xpdfsim/rt"
)

// DiskFault makes the Nth (1-based) disk operation of kind Op whose path has
// suffix Path fail.
type DiskFault struct {
	Op      string `json:"op"`             // open read write close stat create rename sync remove any
	Path    string `json:"path,omitempty"` // suffix match; empty: any
	Nth     int    `json:"nth"`
	Err     string `json:"err"`               // EIO ENOSPC EMFILE EACCES ENOENT ...; "crash"
	Partial int    `json:"partial,omitempty"` // bytes transferred before the error (read/write)
	Sticky  bool   `json:"sticky,omitempty"`  // every later matching operation fails too
	Pos     int    `json:"pos,omitempty"`     // read: bytes from offset Pos-1 on cannot be read, ever (bad sector)
	seen    int
	at      int64 // read: what was delivered when the fault first happened
	Fired   int   `json:"-"`
}

var errnos = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES,
	"ENOENT": syscall.ENOENT, "EISDIR": syscall.EISDIR, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS,
	"ESTALE": syscall.ESTALE, "ENXIO": syscall.ENXIO, "UEOF": io.ErrUnexpectedEOF,
	"EAGAIN": syscall.EAGAIN, "EINTR": syscall.EINTR, "ETIMEDOUT": syscall.ETIMEDOUT, "EPIPE": syscall.EPIPE, "timeout": os.ErrDeadlineExceeded,
	"shortwrite": io.ErrShortWrite, "closed": os.ErrClosed, "pipeclosed": io.ErrClosedPipe, "noprog": io.ErrNoProgress, "EBUSY": syscall.EBUSY,
}

func errOf(s string) error {
	if e, ok := errnos[s]; ok {
		return e
	}
	return errors.New("injected: " + s)
}

type exitPanic struct {
	code  int
	crash bool
}

type inode struct {
	data    []byte
	durable []byte // content after the last sync/close (crash model)
	exists  bool
	dir     bool
	version int
	mtime   int64 // ns after fileEpoch
}

// files of the set-up are an hour older than the simulation
var fileEpoch = simEpoch - 3600

// touch marks a change of the content.
func (n *inode) touch() {
	n.version++
	c := &clocks[rt.Client()]
	n.mtime = (c.base-fileEpoch)*1e9 + int64(rt.Steps())*1000
}

// Disk is the simulated file system of one client.
type Disk struct {
	files       map[string]*inode
	cwd         string
	faults      []*DiskFault
	chunk       *Rng       // short reads when set
	frozen      bool       // after exit or crash nothing has effect
	exited      *exitPanic // the process ended, whatever the code recovered from
	handles     map[*handle]bool
	nextRnd     uint64
	log         []string
	logOn       bool
	hash        uint64
	ops         int
	mutated     map[string]bool // paths created, written, removed, renamed, truncated
	opened      map[string]int
	readPos     map[string]int
	stdout      strings.Builder
	stdoutFault *DiskFault
	exitHk      bool
	escapes     []string
	runs        int // of the command
	maxOpen     int
	curOpen     int
	opKinds     []string // every op in order (kind + path), for fault placement
}

func NewDisk(cwd string) *Disk {
	return &Disk{files: map[string]*inode{}, cwd: cwd, handles: map[*handle]bool{}, mutated: map[string]bool{}, opened: map[string]int{}, hash: 14695981039346656037}
}

func (d *Disk) abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = d.cwd + "/" + name
	}
	return path.Clean(name)
}
func (d *Disk) Put(name string, data []byte) { d.files[d.abs(name)] = &inode{data: data, exists: true} }
func (d *Disk) MkDirs(name string)           { d.files[d.abs(name)] = &inode{dir: true, exists: true} }
func (d *Disk) Get(name string) ([]byte, bool) {
	n, ok := d.files[d.abs(name)]
	if !ok || n.dir {
		return nil, false
	}
	return n.data, true
}
func (d *Disk) isDir(p string) bool {
	if n, ok := d.files[p]; ok {
		return n.dir
	}
	pre := p + "/"
	for k := range d.files {
		if strings.HasPrefix(k, pre) {
			return true
		}
	}
	return p == "/sim" || p == "/sim/tmp" || p == d.cwd
}

func (d *Disk) event(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	d.hash = mix(d.hash, hashStr(s))
	if d.logOn && len(d.log) < 4000 {
		d.log = append(d.log, fmt.Sprintf("step %d: %s", rt.Steps(), s))
	}
}

func (d *Disk) fault(op, p string) *DiskFault {
	d.ops++
	if len(d.opKinds) < 5000 {
		d.opKinds = append(d.opKinds, op+" "+p)
	}
	var hit *DiskFault
	for _, f := range d.faults {
		if f.Op != op && f.Op != "any" || f.Pos > 0 {
			continue
		}
		if f.Path != "" && !strings.HasSuffix(p, f.Path) {
			continue
		}
		f.seen++
		if f.seen == f.Nth || (f.Sticky && f.seen > f.Nth) {
			if hit == nil {
				hit = f
			}
		}
	}
	if hit != nil {
		hit.Fired++
		d.event("fault %s %s -> %s partial=%d", op, p, hit.Err, hit.Partial)
		if hit.Err == "crash" && hit.Partial == 0 {
			d.crash()
		}
	}
	return hit
}

// crash stops the process now: nothing later has any effect.
func (d *Disk) crash() {
	d.frozen = true
	d.exited = &exitPanic{code: -1, crash: true}
	panic(*d.exited)
}

func isSim(p string) bool { return p == "/sim" || strings.HasPrefix(p, "/sim/") }

// --- dispatcher installed as os.SimHook

type diskHook struct{ disks [8]*Disk }

var hook diskHook

func (h *diskHook) d() *Disk { return h.disks[rt.Client()] }

func installDisk(client int, d *Disk) {
	hook.disks[client] = d
}

func (h *diskHook) Open(name string, flag int, perm fs.FileMode) (os.SimFile, bool, error) {
	d := h.d()
	if d == nil {
		return nil, false, nil
	}
	rt.Point()
	p := d.abs(name)
	if !isSim(p) {
		if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
			d.escapes = append(d.escapes, "open for writing "+p)
			return nil, true, syscall.EACCES
		}
		return nil, false, nil
	}
	if d.frozen {
		return nil, true, syscall.EIO
	}
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	d.event("%s %s flag=%x", op, p, flag)
	if f := d.fault(op, p); f != nil {
		return nil, true, errOf(f.Err)
	}
	n, ok := d.files[p]
	if !ok || !n.exists {
		if d.isDir(p) {
			if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				return nil, true, syscall.EISDIR
			}
			n = &inode{dir: true, exists: true}
		} else if flag&os.O_CREATE == 0 {
			return nil, true, syscall.ENOENT
		} else {
			if !d.isDir(path.Dir(p)) {
				return nil, true, syscall.ENOENT
			}
			n = &inode{exists: true}
			n.touch()
			d.files[p] = n
			d.mutated[p] = true
		}
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, true, syscall.EEXIST
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, true, syscall.EISDIR
	}
	if flag&os.O_TRUNC != 0 && !n.dir {
		n.data = nil
		n.touch()
		d.mutated[p] = true
	}
	hd := &handle{d: d, n: n, p: p, flag: flag}
	d.handles[hd] = true
	d.opened[p]++
	d.curOpen++
	if d.curOpen > d.maxOpen {
		d.maxOpen = d.curOpen
	}
	return hd, true, nil
}

func (d *Disk) path(name string) (string, bool) {
	p := d.abs(name)
	return p, isSim(p)
}

func (h *diskHook) Stat(name string, l bool) (fs.FileInfo, bool, error) {
	d := h.d()
	if d == nil {
		return nil, false, nil
	}
	rt.Point()
	p, ok := d.path(name)
	if !ok {
		return nil, false, nil
	}
	if d.frozen {
		return nil, true, syscall.EIO
	}
	d.event("stat %s", p)
	if f := d.fault("stat", p); f != nil {
		return nil, true, errOf(f.Err)
	}
	n, ok := d.files[p]
	if !ok || !n.exists {
		if d.isDir(p) {
			return finfo{path.Base(p), &inode{dir: true}}, true, nil
		}
		return nil, true, syscall.ENOENT
	}
	return finfo{path.Base(p), n}, true, nil
}

func (h *diskHook) Remove(name string) (bool, error) {
	d := h.d()
	if d == nil {
		return false, nil
	}
	rt.Point()
	p, ok := d.path(name)
	if !ok {
		d.escapes = append(d.escapes, "remove "+p)
		return true, syscall.EACCES
	}
	if d.frozen {
		return true, syscall.EIO
	}
	d.event("remove %s", p)
	if f := d.fault("remove", p); f != nil {
		return true, errOf(f.Err)
	}
	if _, ok := d.files[p]; !ok {
		if d.isDir(p) {
			return true, syscall.ENOTEMPTY
		}
		return true, syscall.ENOENT
	}
	delete(d.files, p)
	d.mutated[p] = true
	return true, nil
}

func (h *diskHook) Rename(o, n string) (bool, error) {
	d := h.d()
	if d == nil {
		return false, nil
	}
	rt.Point()
	po, ok1 := d.path(o)
	pn, ok2 := d.path(n)
	if !ok1 || !ok2 {
		d.escapes = append(d.escapes, "rename "+po+" "+pn)
		return true, syscall.EACCES
	}
	if d.frozen {
		return true, syscall.EIO
	}
	d.event("rename %s %s", po, pn)
	if f := d.fault("rename", pn); f != nil {
		return true, errOf(f.Err)
	}
	nd, ok := d.files[po]
	if !ok {
		return true, syscall.ENOENT
	}
	if d.isDir(pn) {
		return true, syscall.EEXIST
	}
	if !d.isDir(path.Dir(pn)) {
		return true, syscall.ENOENT
	}
	delete(d.files, po)
	d.files[pn] = nd
	d.mutated[po], d.mutated[pn] = true, true
	return true, nil
}

func (h *diskHook) Mkdir(name string, perm fs.FileMode) (bool, error) {
	d := h.d()
	if d == nil {
		return false, nil
	}
	p, ok := d.path(name)
	if !ok {
		d.escapes = append(d.escapes, "mkdir "+p)
		return true, syscall.EACCES
	}
	if d.frozen {
		return true, syscall.EIO
	}
	if d.isDir(p) {
		return true, syscall.EEXIST
	}
	d.event("mkdir %s", p)
	if f := d.fault("mkdir", p); f != nil {
		return true, errOf(f.Err)
	}
	d.files[p] = &inode{dir: true, exists: true}
	d.files[p].touch()
	d.mutated[p] = true
	return true, nil
}

func (h *diskHook) Truncate(name string, size int64) (bool, error) {
	d := h.d()
	if d == nil {
		return false, nil
	}
	p, ok := d.path(name)
	if !ok || d.frozen {
		return true, syscall.EACCES
	}
	n, ok := d.files[p]
	if !ok {
		return true, syscall.ENOENT
	}
	n.truncate(size)
	d.mutated[p] = true
	d.event("truncate %s %d", p, size)
	return true, nil
}
func (h *diskHook) Chmod(name string, mode fs.FileMode) (bool, error) {
	d := h.d()
	if d == nil {
		return false, nil
	}
	p, ok := d.path(name)
	if !ok {
		return true, syscall.EACCES
	}
	if _, ok := d.files[p]; !ok {
		return true, syscall.ENOENT
	}
	d.mutated[p] = true
	return true, nil
}
func (h *diskHook) Getwd() (string, bool, error) {
	d := h.d()
	if d == nil {
		return "", false, nil
	}
	return d.cwd, true, nil
}
func (h *diskHook) Exit(code int) {
	d := h.d()
	if d == nil || !d.exitHk {
		return
	}
	if d.exited != nil {
		panic(*d.exited)
	}
	d.event("exit %d", code)
	d.frozen = true
	d.exited = &exitPanic{code: code}
	panic(*d.exited)
}
func (h *diskHook) NextRandom() uint64 {
	d := h.d()
	if d == nil {
		return 4
	}
	d.nextRnd++
	return d.nextRnd
}

func (n *inode) truncate(size int64) {
	if int64(len(n.data)) > size {
		n.data = append([]byte(nil), n.data[:size]...)
	} else {
		n.data = append(append([]byte(nil), n.data...), make([]byte, size-int64(len(n.data)))...)
	}
	n.touch()
}

type finfo struct {
	name string
	n    *inode
}

func (f finfo) Name() string { return f.name }
func (f finfo) Size() int64  { return int64(len(f.n.data)) }
func (f finfo) Mode() fs.FileMode {
	if f.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (f finfo) ModTime() time.Time { return time.Unix(fileEpoch, f.n.mtime) }
func (f finfo) IsDir() bool        { return f.n.dir }
func (f finfo) Sys() interface{}   { return nil }

type handle struct {
	d      *Disk
	n      *inode
	p      string
	pos    int64
	flag   int
	closed bool
}

func (h *handle) Read(b []byte) (int, error) {
	rt.Point()
	if h.closed {
		return 0, os.ErrClosed
	}
	if h.d.frozen {
		return 0, syscall.EIO
	}
	if h.n.dir {
		return 0, syscall.EISDIR
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, syscall.EBADF
	}
	rest := int64(len(h.n.data)) - h.pos
	if f := h.d.fault("read", h.p); f != nil {
		k := int64(f.Partial)
		if k > rest {
			k = rest
		}
		if k > int64(len(b)) {
			k = int64(len(b))
		}
		copy(b, h.n.data[h.pos:h.pos+k])
		h.pos += k
		if f.Fired == 1 {
			f.at = h.pos
		}
		return int(k), errOf(f.Err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	for _, f := range h.d.faults {
		if f.Pos == 0 || f.Op != "read" || f.Path != "" && !strings.HasSuffix(h.p, f.Path) {
			continue
		}
		room := int64(f.Pos-1) - h.pos
		if room <= 0 {
			f.Fired++
			f.at = h.pos
			h.d.event("fault read %s at %d -> %s", h.p, h.pos, f.Err)
			return 0, errOf(f.Err)
		}
		if rest > room {
			rest = room
		}
	}
	if rest <= 0 {
		h.d.event("read %s eof", h.p)
		return 0, io.EOF
	}
	k := int64(len(b))
	if k > rest {
		k = rest
	}
	if c := h.d.chunk; c != nil && k > 1 {
		switch c.Intn(4) {
		case 0:
			k = 1 + int64(c.Intn(int(k)))
		case 1:
			m := int64(1 + c.Intn(7))
			if m < k {
				k = m
			}
		}
	}
	copy(b, h.n.data[h.pos:h.pos+k])
	h.pos += k
	h.d.event("read %s %d", h.p, k)
	return int(k), nil
}
func (h *handle) Pread(b []byte, off int64) (int, error) {
	o := h.pos
	h.pos = off
	n, err := h.Read(b)
	h.pos = o
	if err == io.EOF {
		return n, nil
	}
	return n, err
}
func (h *handle) Write(b []byte) (int, error) {
	rt.Point()
	if h.closed {
		return 0, os.ErrClosed
	}
	if h.d.frozen {
		return 0, syscall.EIO
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	k := len(b)
	var err error
	var crash bool
	if f := h.d.fault("write", h.p); f != nil {
		k = f.Partial
		if k > len(b) {
			k = len(b)
		}
		if f.Err == "crash" {
			crash = true
		} else {
			err = errOf(f.Err)
		}
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.n.data))
	}
	if end := h.pos + int64(k); end > int64(len(h.n.data)) {
		h.n.data = append(append([]byte(nil), h.n.data...), make([]byte, end-int64(len(h.n.data)))...)
	} else {
		h.n.data = append([]byte(nil), h.n.data...)
	}
	copy(h.n.data[h.pos:], b[:k])
	h.pos += int64(k)
	h.n.touch()
	h.d.mutated[h.p] = true
	h.d.event("write %s %d/%d", h.p, k, len(b))
	if crash {
		h.d.crash()
	}
	return k, err
}
func (h *handle) Pwrite(b []byte, off int64) (int, error) {
	o := h.pos
	h.pos = off
	n, err := h.Write(b)
	h.pos = o
	return n, err
}
func (h *handle) Seek(off int64, whence int) (int64, error) {
	rt.Point()
	if h.closed {
		return 0, os.ErrClosed
	}
	if f := h.d.fault("seek", h.p); f != nil {
		return 0, errOf(f.Err)
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.pos = off
	return off, nil
}
func (h *handle) Stat() (fs.FileInfo, error) {
	if h.closed {
		return nil, os.ErrClosed
	}
	if f := h.d.fault("fstat", h.p); f != nil {
		return nil, errOf(f.Err)
	}
	return finfo{path.Base(h.p), h.n}, nil
}
func (h *handle) Truncate(size int64) error {
	if h.d.frozen {
		return syscall.EIO
	}
	h.n.truncate(size)
	h.d.mutated[h.p] = true
	return nil
}
func (h *handle) Sync() error {
	rt.Point()
	if h.d.frozen {
		return syscall.EIO
	}
	if f := h.d.fault("sync", h.p); f != nil {
		return errOf(f.Err)
	}
	return nil
}
func (h *handle) Close() error {
	rt.Point()
	if h.closed {
		return os.ErrClosed
	}
	if h.d.frozen {
		return nil
	}
	h.closed = true
	delete(h.d.handles, h)
	h.d.curOpen--
	h.d.event("close %s", h.p)
	if f := h.d.fault("close", h.p); f != nil {
		if h.flag&(os.O_WRONLY|os.O_RDWR) != 0 && f.Partial > 0 {
			// late write error: the tail never reached the disk
			k := len(h.n.data) - f.Partial
			if k < 0 {
				k = 0
			}
			h.n.data = h.n.data[:k]
		}
		return errOf(f.Err)
	}
	return nil
}

// OpenHandles lists the paths still open.
func (d *Disk) OpenHandles() []string {
	var r []string
	for h := range d.handles {
		r = append(r, h.p)
	}
	sort.Strings(r)
	return r
}

func (d *Disk) Mutated() []string {
	var r []string
	for p := range d.mutated {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}
