package core

import (
	"fmt"
	"path"
	"regexp"
	"strings"
)

func init() {
	register(&Prop{
		ID: "C20", Quick: 4000, Thorough: 150000,
		Rule: "random documents and images given to the describe and image commands by random paths, each run without faults, then with missing, damaged and unreadable inputs (open and read errors at any byte, short reads) and with standard output failing at any byte, alone and together; non-trivial: a fault happened; distinct by command, input and fault",
		Real: "cmd/describe and cmd/image main and everything below them", Stub: "disk (simulated, failing), standard output (simulated, failing), arguments, exit, working directory",
		Gen: genC20,
		Run: runC20,
	})
}

var imgExts = []string{".png", ".gif", ".jpg", ".jpeg", ".bmp", ".webp", "", ".PNG", ".GIF", ".tiff", ".pdf", ".svg"}

func genC20(r *Rng, idx int) *Scenario {
	sc := manyDocs(r, 1)
	if r.P(0.5) {
		for {
			t := loadable(r)
			if t.x("kind") == kDoc {
				sc.Docs = t.Docs
				break
			}
		}
	}
	sc.MapSeed = r.U64()
	sc.Text = pick(r, []string{"doc.xml", "./in/doc.v2.xml", "/sim/data/my doc.xml", "in/doc", "../data/x.y/doc.xml"})
	if r.P(0.35) {
		sc.X["image"] = 1 + r.Intn(len(cmdImgNames))
		sc.X["ext"] = r.Intn(3 * len(imgExts))
	}
	errn := func() string {
		return pick(r, []string{"EIO", "EACCES", "ENOSPC", "EMFILE", "ESTALE", "UEOF", "EINTR", "EPIPE", "closed"})
	}
	for i, n := 0, 2+r.Intn(5); i < n; i++ {
		op := Op{K: "fault"}
		switch x := r.Intn(10); {
		case x == 0:
			op.K = "gone"
		case x == 1:
			op.K = "dir"
		case x == 2:
			op.K = "bad"
			op.N = int(r.U64() >> 34)
		case x < 6:
			op.Disk = []DiskFault{{Op: pick(r, []string{"open", "read", "read", "close"}), Nth: 1 + r.Intn(3), Err: errn(), Partial: pick(r, []int{0, 0, 1, 100, 5000}), Sticky: r.P(0.3)}}
			if r.P(0.5) {
				op.Disk[0] = DiskFault{Op: "read", Pos: 1 + r.Intn(pick(r, []int{40, 1000, 8000})), Err: errn()}
			}
		default:
			op.N = 1
		}
		if op.N == 1 || r.P(0.2) {
			op.Wr = &WrFault{At: r.Intn(pick(r, []int{1, 30, 1000, 30000})), Err: pick(r, []string{"ENOSPC", "EIO", "EPIPE", "EDQUOT"})}
		}
		sc.Ops = append(sc.Ops, op)
	}
	if r.P(0.4) {
		sc.Chunk = r.U64() | 1
	}
	return sc
}

func runC20(sc *Scenario) *Result {
	res := &Result{}
	name := "describe"
	src := []byte(sc.Docs[0].XML())
	var check func(out string) string
	in := sc.Text
	if i := sc.x("image"); i > 0 {
		name = "image"
		im := cmdImgNames[(i-1)%len(cmdImgNames)]
		src = imageBytes(im)
		in = strings.TrimSuffix(in, path.Ext(in))
		if x := sc.x("ext"); x < len(imgExts) {
			in += imgExts[x]
		} else {
			in += "." + im[:3]
		}
		w, h := imgPx(im)
		check = func(out string) string {
			// what is said about the image, not its name
			out = strings.ReplaceAll(strings.ReplaceAll(out, in, ""), path.Base(in), "")
			f := im[:3]
			if f == "jpg" {
				f = "jpe?g"
			}
			for _, x := range []string{f, fmt.Sprint(w), fmt.Sprint(h)} {
				if !regexp.MustCompile(`\b` + x + `\b`).MatchString(out) {
					return fmt.Sprintf("the output %q does not state %s", clip(out, 200), x)
				}
			}
			return ""
		}
	}
	if in == "" {
		return res
	}
	if Commands[name] == nil {
		panic("there is no command cmd/" + name)
	}
	abs := cliPath(in)
	mk := func() *Disk {
		d := sc.disk()
		for _, dir := range []string{"/sim/work", "/sim/work/in", "/sim/data", "/sim/data/x.y"} {
			d.MkDirs(dir)
		}
		d.Put(abs, src)
		d.Put("/sim/data/other", []byte("bystander"))
		return d
	}
	if name == "describe" {
		want := wantDescription(sc.Docs[0])
		check = func(out string) string {
			for _, isXML := range []bool{false, true} {
				if got, err := readDescription(out, isXML); err == nil {
					if x := descDiff(want, got); x != "" {
						return "the description is wrong: " + x
					}
					return ""
				}
			}
			return fmt.Sprintf("the output (%d bytes) is no complete description of the document", len(out))
		}
	}
	desc := fmt.Sprintf("%s %q", name, in)
	judge := func(what string, d *Disk, r *cliRun) bool {
		if m := d.Mutated(); len(m) > 0 || len(d.escapes) > 0 {
			res.fail("changed-file", "%s: the command changed files: %v %v", what, m, d.escapes)
			return false
		}
		if r.Budget {
			res.fail("endless", "%s: %s", what, r.bad())
			return false
		}
		if r.code == 0 {
			if x := check(d.stdout.String()); x != "" {
				res.fail("false-success", "%s: exit status 0, but %s", what, x)
				return false
			}
		}
		return true
	}
	d := mk()
	r := runCmd(name, d, sc.MapSeed, in)
	if r.code != 0 {
		return res.fail("failure", "%s: exit status %d without any fault %s: %s", desc, r.code, r.bad(), clip(d.stdout.String(), 200))
	}
	if !judge(desc, d, r) {
		return res
	}
	// without arguments there is nothing to report, or, at most, a file
	// that the command looks for by itself
	d0 := mk()
	if r := runCmd(name, d0, sc.MapSeed); r.code == 0 {
		return res.fail("false-success", "%s without arguments: exit status 0, although no file was given, and none exists in other places; the output: %q", name, clip(d0.stdout.String(), 200))
	} else if m := d0.Mutated(); len(m) > 0 || len(d0.escapes) > 0 {
		return res.fail("changed-file", "%s without arguments: the command changed files: %v %v", name, m, d0.escapes)
	}
	stats["probe:no-arguments"]++
	res.add(d.hash)
	res.Key = hashStr(string(src) + desc)
	for i := range sc.Ops {
		op := &sc.Ops[i]
		d := mk()
		must, fault := false, false
		what := desc + ", " + op.K
		switch op.K {
		case "gone":
			delete(d.files, abs)
			must = true
		case "dir":
			d.MkDirs(abs)
			must = true
		case "bad":
			must = true
			n := op.N % (len(src) + 1)
			if name == "describe" {
				n = op.N % (strings.LastIndex(string(src), "</document>") + 1)
			} else if n > 6 && op.N%3 > 0 {
				n = op.N / 3 % 7
			}
			d.Put(abs, src[:n])
			if name == "image" && n > 6 {
				must, fault = false, true // the header may be complete
			}
			what += fmt.Sprintf(" after %d of %d bytes", n, len(src))
		}
		if must || fault {
			stats["fault:file-"+op.K]++
		}
		for k := range op.Disk {
			x := op.Disk[k]
			x.Path = abs
			x.seen, x.Fired = 0, 0
			d.faults = append(d.faults, &x)
			what += " " + js(x)
		}
		if op.Wr != nil {
			d.stdoutFault = &DiskFault{Pos: op.Wr.At, Err: op.Wr.Err}
			what += " " + fmt.Sprintf("standard output fails after %d bytes", op.Wr.At)
		}
		r := runCmd(name, d, sc.MapSeed, in)
		for _, x := range d.faults {
			if x.Fired == 0 {
				continue
			}
			stats["fault:disk-"+x.Op+"-"+x.Err]++
			fault = true
			switch {
			case x.Op == "open":
				must = true
			case x.Op == "read" && name == "describe":
				at := x.at
				if x.Pos > 0 {
					at = int64(x.Pos - 1)
				}
				if at < int64(strings.LastIndex(string(src), "</document>")+len("</document>")) {
					must = true
				}
			}
		}
		if f := d.stdoutFault; f != nil && f.Fired > 0 {
			stats["fault:stdout-"+f.Err]++
			must = true
		}
		res.add(d.hash)
		if must || fault {
			res.NonTrivial = true
			res.Key = mix(res.Key, hashStr(what))
		}
		if !judge(what, d, r) {
			return res
		}
		if must && r.code == 0 {
			return res.fail("false-success", "%s: exit status 0", what)
		}
		if !must && !fault && r.code != 0 {
			return res.fail("failure", "%s: exit status %d although no fault happened: %s", what, r.code, clip(d.stdout.String(), 200))
		}
		if r.code != 0 {
			stats["probe:failed-with-status"]++
		}
	}
	return res
}
