package main

// P25: what the commands that write files do to the user's files, on every
// combination of options, inputs and destinations, under every failure of a
// system call and after a kill at every system call.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"alda.io/client/interop/musicxml/importer"
	"alda.io/client/parser"
)

// snapshot describes a directory tree.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
		case fi.IsDir():
			out[rel] = fmt.Sprintf("directory %o", fi.Mode().Perm())
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%o %s", fi.Mode().Perm(), b)
		default:
			out[rel] = fi.Mode().String()
		}
		return nil
	})
	return out
}

// changed compares two snapshots, leaving out the given file.
func changed(a, b map[string]string, except string) string {
	for _, k := range sortedKeys(a) {
		if k == except {
			continue
		}
		if v, ok := b[k]; !ok {
			return fmt.Sprintf("%s is gone", k)
		} else if v != a[k] {
			return fmt.Sprintf("%s was %.200q and is %.200q", k, a[k], v)
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok && k != except {
			return fmt.Sprintf("there is a new file %s: %.100q", k, b[k])
		}
	}
	return ""
}

func content(v string) (mode, text string) {
	mode, text, _ = strings.Cut(v, " ")
	return
}

// fcase is a command that writes a file or to the standard output.
type fcase struct {
	args   []string
	stdin  string
	files  []string // paths and contents to be set up: "path", "content", ...
	dest   string   // the file that is written (after symbolic links), or ""
	want   string   // what is written
	fails  bool     // it must be reported as an error
	either bool     // it may fail or succeed
	player func(x *aldaEnv, path string)
	repl   bool // a REPL client, which goes on after a failure
	port   func() int
}

// succeeded: what the user is told.
func (f *fcase) succeeded(r *fileRun) bool {
	return r.code == 0 && !(f.repl && strings.Contains(r.out.String()+r.err.String(), "ERROR"))
}

// build sets up the files: "dir/" a directory, "a->b" a symbolic link,
// "name@600" a file with a mode.
func buildFiles(cwd string, files []string) {
	for i := 0; i+1 < len(files); i += 2 {
		name, text := files[i], files[i+1]
		if a, b, ok := strings.Cut(name, "->"); ok {
			os.Symlink(b, filepath.Join(cwd, a))
			continue
		}
		if strings.HasSuffix(name, "/") {
			os.MkdirAll(filepath.Join(cwd, name), 0755)
			continue
		}
		mode := os.FileMode(0644)
		if a, b, ok := strings.Cut(name, "@"); ok {
			var m uint32
			fmt.Sscanf(b, "%o", &m)
			name, mode = a, os.FileMode(m)
		}
		p := filepath.Join(cwd, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(text), 0600)
		os.Chmod(p, mode)
	}
}

type fileRun struct {
	*aldaRun
	before, after, tmp map[string]string
}

// runFiles runs one such command, possibly with a fault.
func runFiles(f *fcase, ft *fault, evs *[]*sysEvent) (*fileRun, error) {
	x, err := newAldaEnv()
	if err != nil {
		return nil, err
	}
	defer x.close()
	x.set("ALDA_DISABLE_SPAWNING=yes")
	cwd := filepath.Join(x.dir, "cwd")
	buildFiles(cwd, f.files)
	os.Mkdir(filepath.Join(x.dir, "pcwd"), 0755)
	if f.player != nil {
		pf := x.place(0, pkinds["ready"])
		defer pf.ear.l.Close()
		pf.ear.on = func(e *ear, m omsg) {
			if m.addr != "/system/midi/export" || len(m.args) != 1 {
				return
			}
			if p, ok := m.args[0].(string); ok {
				if !filepath.IsAbs(p) {
					p = filepath.Join(x.dir, "pcwd", p)
				}
				f.player(x, p)
			}
		}
	}
	r := &fileRun{before: snapshot(cwd)}
	args := f.args
	if f.repl {
		args = append(args[:len(args):len(args)], fmt.Sprint(f.port()))
	}
	var in io.Reader
	if f.stdin != "" {
		in = strings.NewReader(f.stdin)
	}
	if ft == nil && evs == nil {
		r.aldaRun, err = x.start(in, args...)
	} else {
		spec := ""
		if ft != nil {
			b, _ := json.Marshal(ft)
			spec = string(b)
		}
		real, err2 := filepath.EvalSymlinks(cwd)
		if err2 != nil {
			return nil, err2
		}
		r.aldaRun, err = x.startWith(in, append([]string{os.Getenv("VERIF_MC"), "tracer", filepath.Join(x.dir, "log"), real, spec, os.Getenv("VERIF_ALDA")}, args...))
	}
	if err != nil {
		return nil, err
	}
	if !r.wait(90 * time.Second) {
		return nil, fmt.Errorf("the command does not end: %s", r.text())
	}
	if evs != nil {
		b, err := os.ReadFile(filepath.Join(x.dir, "log"))
		if err != nil {
			return nil, fmt.Errorf("no trace: %v: %s", err, r.text())
		}
		if err := json.Unmarshal(b, evs); err != nil {
			return nil, err
		}
	}
	r.after, r.tmp = snapshot(cwd), snapshot(filepath.Join(x.dir, "tmp"))
	for k, v := range snapshot(filepath.Join(x.dir, "pcwd")) {
		r.tmp["player/"+k] = v
	}
	return r, nil
}

// finished checks the outcome of a command that was not interfered with.
func (f *fcase) finished(r *fileRun) string {
	if len(r.tmp) > 0 {
		return fmt.Sprintf("temporary files are left: %v; %s", sortedKeys(r.tmp), r.text())
	}
	if strings.Contains(r.err.String(), "goroutine ") {
		return "it crashes: " + r.text()
	}
	fails := f.fails
	if f.either {
		fails = r.code != 0
	}
	if fails {
		if d := changed(r.before, r.after, ""); d != "" {
			return fmt.Sprintf("it cannot succeed, but %s; %s", d, r.text())
		}
		if r.code == 0 {
			return "it cannot succeed, but reports success: " + r.text()
		}
		if strings.TrimSpace(r.err.String()) == "" {
			return "it fails without a report"
		}
		if r.out.Len() > 0 {
			return "it fails, but there is output: " + r.text()
		}
		return ""
	}
	if r.code != 0 {
		return "it fails: " + r.text()
	}
	if d := changed(r.before, r.after, f.dest); d != "" {
		return d
	}
	if f.dest == "" {
		if r.out.String() != f.want {
			return fmt.Sprintf("the output is %.300q, expected %.300q", r.out.String(), f.want)
		}
		return ""
	}
	if r.out.Len() > 0 && !f.repl {
		return "there is output although it is to be written to a file: " + r.text()
	}
	return f.written(r)
}

func (f *fcase) written(r *fileRun) string {
	v, ok := r.after[f.dest]
	if !ok {
		return "no file is written; " + r.text()
	}
	mode, text := content(v)
	if text != f.want && !(f.repl && strings.HasSuffix(f.dest, ".alda") && lines(text) == lines(f.want)) {
		return fmt.Sprintf("%s contains %.300q, expected %.300q", f.dest, text, f.want)
	}
	if old, ok := r.before[f.dest]; ok {
		if m, _ := content(old); m != mode {
			return fmt.Sprintf("the mode of %s was %s and is %s", f.dest, m, mode)
		}
	}
	return ""
}

// faulted checks the outcome of a command that was interfered with.
func (f *fcase) faulted(r *fileRun, ft *fault, e *sysEvent) string {
	isNew := f.dest != "" && f.written(r) == ""
	if e.Call == "chmod" && f.dest != "" && !isNew {
		if _, t := content(r.after[f.dest]); t == f.want {
			isNew = true // with another mode
		}
	}
	isOld := changed(map[string]string{"f": r.before[f.dest]}, map[string]string{"f": r.after[f.dest]}, "") == ""
	if f.dest == "" {
		isOld = true
	}
	if !isNew && !isOld {
		return fmt.Sprintf("%s is neither as before nor complete: %.300q; %s", f.dest, r.after[f.dest], r.text())
	}
	killed := r.code == 137
	if ft.Kill && !killed {
		// it ended before it got there
		return "it was not killed: " + r.text()
	}
	// other files
	for _, k := range sortedKeys(r.before) {
		if k != f.dest && r.after[k] != r.before[k] {
			return fmt.Sprintf("%s was %.200q and is %.200q", k, r.before[k], r.after[k])
		}
	}
	if killed {
		return ""
	}
	if strings.Contains(r.err.String(), "goroutine ") {
		return "it crashes: " + r.text()
	}
	for _, k := range sortedKeys(r.after) {
		if _, ok := r.before[k]; !ok && k != f.dest && e.Call != "unlink" {
			return fmt.Sprintf("%s is left behind; %s", k, r.text())
		}
	}
	switch {
	case f.succeeded(r) && f.dest != "" && !isNew:
		return "it reports success, but the file is not written: " + r.text()
	case r.code == 0 && f.dest == "" && r.out.String() != f.want:
		return "it reports success, but the output is wrong: " + r.text()
	case !f.succeeded(r) && !isOld:
		return "it reports failure, but the file has changed: " + r.text()
	case r.code != 0 && strings.TrimSpace(r.err.String()) == "":
		return "it fails without a report"
	}
	return ""
}

func formatted(text string, wrap int, indent string) (string, error) {
	root, err := parser.Parse("f", text)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	switch {
	case wrap > 0 && indent != "":
		err = parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(wrap), parser.ConfigureIndentText(indent))
	case wrap > 0:
		err = parser.FormatASTToCode(root, &b, parser.ConfigureSoftWrapLen(wrap))
	case indent != "":
		err = parser.FormatASTToCode(root, &b, parser.ConfigureIndentText(indent))
	default:
		err = parser.FormatASTToCode(root, &b)
	}
	return b.String(), err
}

func imported(xml string) (string, error) {
	us, err := importer.ImportMusicXML([]byte(xml))
	if err != nil {
		return "", err
	}
	root, err := parser.GenerateASTFromScoreUpdates(us)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = parser.FormatASTToCode(root, &b)
	return b.String(), err
}

const goodXML = `<?xml version="1.0" encoding="UTF-8"?>
<score-partwise version="4.0"><part-list><score-part id="P1"><part-name>M</part-name></score-part></part-list>
<part id="P1"><measure number="1"><attributes><divisions>1</divisions><key><fifths>0</fifths></key></attributes>
<note><pitch><step>C</step><octave>4</octave></pitch><duration>1</duration><voice>1</voice><type>quarter</type></note>
<note><pitch><step>E</step><octave>4</octave></pitch><duration>2</duration><voice>1</voice><type>half</type></note>
</measure></part></score-partwise>`

func init() {
	register("P25", "fault_enumeration", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 200 * time.Second
		c.Rule("evaluations = runs of the real alda binary; every run is followed by a comparison of the whole directory with what it was before; distinct_nontrivial = runs that write, fail or are disturbed; in the fault phases every system call that concerns a file of the directory is a fault position, at which the call fails with each possible error, a write is cut at every length, or the process is killed")
		c.Assume("the directory is on a file system whose rename is atomic; what a power failure does to data that was written but not synced is not modelled")
		const workers = 32
		run := func(key string, v any) *Fail {
			f := v.(*fcase)
			r, err := runFiles(f, nil, nil)
			if err != nil {
				return failf(key, "%v", err)
			}
			if d := f.finished(r); d != "" {
				return failf(key, "%s", d)
			}
			c.State(strings.Join(f.files, "\x00"))
			if r.code != 0 || changed(r.before, r.after, "") != "" {
				c.Nontrivial()
			}
			c.Outcome(fmt.Sprintf("%s %v %s", f.args[0], f.fails, f.want))
			c.Trans(1)
			c.Trace()
			return nil
		}
		c.ExploreN("format", workers, func(yield func(string, any) bool) {
			inputs := []struct{ name, text string }{
				{"short", "piano: c   d e"},
				{"long", "piano: " + strings.Repeat("c4 (vol 50) [d e]*3 {f g}2 ", 12) + "\nviolin:\n  V1: c d\n  V2: e f V0: g\n"},
				{"unicode", "piano \"pp\": c # comment é\nfoo = c d\nfoo"},
				{"empty", ""},
				{"comment", "# nothing\n"},
				{"bad", "piano: c d ]"},
				{"bad later", "piano: c d\nviolin: e (vol"},
				{"junk", "\x00\xff\xfe"},
				{"directory", "/"},
				{"missing", "!"},
				{"no option", "!!"},
				{"link", "->"},
				{"dangling", "->x"},
				{"in a directory", "d"},
			}
			for _, in := range inputs {
				for _, w := range []string{"", "0", "1", "2", "20", "40", "80", "500", "-1", "-5", "-80", "abc", "", "99999999999999999999"} {
					for _, ind := range []string{"", "\t", "    ", " "} {
						for _, dest := range []string{"stdout", "over", "over 600", "over 755"} {
							f := &fcase{args: []string{"format", "-f", "a.alda"}, files: []string{"other", "x", "a.alda.tmp", "y", "a.alda", in.text}}
							text, path := in.text, "a.alda"
							switch in.text {
							case "/":
								f.files[4] = "a.alda/"
								f.fails = true
							case "!":
								f.files = f.files[:4]
								f.fails = true
							case "!!":
								f.args, f.files, f.fails = f.args[:1], f.files[:4], true
							case "->":
								text, path = inputs[0].text, "real.alda"
								f.files = append(f.files[:4], "real.alda", text, "a.alda->real.alda", "")
							case "->x":
								f.files[4], f.fails = "a.alda->nowhere/x", true
							case "d":
								text, path = inputs[0].text, "sub dir/é.alda"
								f.args[2] = path
								f.files = append(f.files[:4], path, text)
							}
							if strings.HasPrefix(dest, "over") {
								f.args = append(f.args, "-o")
								f.dest = path
							}
							if m := strings.TrimPrefix(dest, "over "); m != dest {
								if f.fails || in.text == "->" {
									continue
								}
								f.files[4] += "@" + m
							}
							wrap := 0
							if w != "" {
								f.args = append(f.args, "--wrap="+w)
								if n, err := fmt.Sscanf(w, "%d", &wrap); n != 1 || err != nil || wrap < 0 || len(w) > 10 {
									f.fails = true
								}
							}
							if ind != "" {
								f.args = append(f.args, "-i", ind)
							}
							if !f.fails {
								var err error
								if f.want, err = formatted(text, wrap, ind); err != nil {
									f.fails = true
								}
							}
							if !yield(fmt.Sprintf("format %s, wrap %q, indent %q, to %s", in.name, w, ind, dest), f) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("import", workers, func(yield func(string, any) bool) {
			good, _ := imported(goodXML)
			inputs := []struct{ name, xml string }{
				{"good", goodXML}, {"cut", goodXML[:len(goodXML)/2]}, {"cut at the end", strings.TrimSuffix(goodXML, "</score-partwise>")},
				{"empty", ""}, {"text", "piano: c d e"}, {"other", "<html></html>"}, {"timewise", strings.ReplaceAll(goodXML, "partwise", "timewise")},
				{"bad number", strings.Replace(goodXML, "<octave>4<", "<octave>x<", 1)},
			}
			for _, in := range inputs {
				for _, src := range []string{"file", "code", "stdin", "missing", "directory"} {
					for _, format := range []string{"musicxml", "", "midi"} {
						for _, out := range []string{"", "new", "old", "old 600", "link", "dangling", "no directory", "directory", "itself"} {
							f := &fcase{args: []string{"import"}, files: []string{"other", "x", "in.xml", in.xml}, want: good, fails: format != "musicxml"}
							if in.name != "good" {
								_, err := imported(in.xml)
								f.fails = f.fails || err != nil
								if err == nil {
									f.want, _ = imported(in.xml)
								}
							}
							switch src {
							case "file":
								f.args = append(f.args, "-f", "in.xml")
							case "code":
								if in.xml == "" {
									continue
								}
								f.args = append(f.args, "-c", in.xml)
							case "stdin":
								f.stdin = in.xml
								if in.xml == "" {
									f.fails = true
								}
							case "missing":
								f.args = append(f.args, "-f", "nothing.xml")
								f.fails = true
							case "directory":
								f.args = append(f.args, "-f", ".")
								f.fails = true
							}
							if format != "" {
								f.args = append(f.args, "-i", format)
							}
							switch out {
							case "":
							case "new":
								f.args, f.dest = append(f.args, "-o", "out.alda"), "out.alda"
							case "old":
								f.args, f.dest = append(f.args, "-o", "out.alda"), "out.alda"
								f.files = append(f.files, "out.alda", "piano: my work")
							case "old 600":
								f.args, f.dest = append(f.args, "-o", "out.alda"), "out.alda"
								f.files = append(f.files, "out.alda@600", "piano: my work")
							case "link":
								f.args, f.dest = append(f.args, "-o", "out.alda"), "work.alda"
								f.files = append(f.files, "work.alda", "piano: my work", "out.alda->work.alda", "")
							case "dangling":
								f.args, f.fails = append(f.args, "-o", "out.alda"), true
								f.files = append(f.files, "out.alda->nowhere/work.alda", "")
								continue // a new file at either place would do
							case "no directory":
								f.args, f.fails = append(f.args, "-o", "nowhere/out.alda"), true
							case "directory":
								f.args, f.fails = append(f.args, "-o", "dir"), true
								f.files = append(f.files, "dir/", "")
							case "itself":
								f.args, f.dest = append(f.args, "-o", "in.xml"), "in.xml"
							}
							if !yield(fmt.Sprintf("import %s from %s as %q to %q", in.name, src, format, out), f) {
								return
							}
						}
					}
				}
			}
		}, run)
		midi := midiBytes(2)
		c.ExploreN("export", 48, func(yield func(string, any) bool) {
			inputs := []struct {
				name, text string
				fails      bool
			}{{"good", "piano: c8 d", false}, {"two parts", "piano: c8\nviolin: d8", false}, {"syntax error", "piano: c ]", true}, {"evaluation error", "piano: c nosuch", true}, {"empty", "", true}}
			for _, in := range inputs {
				for _, src := range []string{"file", "code", "stdin", "missing"} {
					for _, out := range []string{"", "new", "old", "old 600", "link", "no directory", "directory", "itself"} {
						for _, opt := range []string{"", "-O midi", "-O xml", "--from 0:00", "--from nowhere", "--to 0:01"} {
							f := &fcase{args: []string{"export"}, files: []string{"other", "x", "in.alda", in.text}, want: string(midi), fails: in.fails}
							if (in.name == "two parts" || src == "missing") && opt != "" && !c.Thorough {
								continue
							}
							switch src {
							case "file":
								f.args = append(f.args, "-f", "in.alda")
								if in.text == "" {
									f.either = true
								}
							case "code":
								if in.text == "" {
									continue
								}
								f.args = append(f.args, "-c", in.text)
							case "stdin":
								f.stdin = in.text
							case "missing":
								f.args = append(f.args, "-f", "nothing.alda")
								f.fails = true
							}
							f.args = append(f.args, strings.Fields(opt)...)
							if opt == "-O xml" || opt == "--from nowhere" {
								f.fails, f.either = true, false
							}
							switch out {
							case "":
							case "new":
								f.args, f.dest = append(f.args, "-o", "out.mid"), "out.mid"
							case "old", "old 600":
								f.args, f.dest = append(f.args, "-o", "out.mid"), "out.mid"
								f.files = append(f.files, strings.TrimSpace("out.mid"+strings.Replace(out[3:], " ", "@", 1)), "my recording")
							case "link":
								f.args, f.dest = append(f.args, "-o", "out.mid"), "work.mid"
								f.files = append(f.files, "work.mid", "my recording", "out.mid->work.mid", "")
							case "no directory":
								f.args, f.fails = append(f.args, "-o", "nowhere/out.mid"), true
							case "directory":
								f.args, f.fails = append(f.args, "-o", "dir"), true
								f.files = append(f.files, "dir/", "")
							case "itself":
								f.args, f.dest = append(f.args, "-o", "in.alda"), "in.alda"
							}
							f.player = func(x *aldaEnv, p string) { os.WriteFile(p, midi, 0644) }
							if !yield(fmt.Sprintf("export %s from %s %s to %q", in.name, src, opt, out), f) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("the player pauses after every byte of an export", 64, func(yield func(string, any) bool) {
			small := midiSmall()
			for n := 0; n < len(small); n++ {
				for _, out := range []string{"", "out.mid"} {
					n := n
					f := &fcase{args: []string{"export", "-c", "piano: c8"}, files: []string{"out.mid", "my recording"}, want: string(small)}
					if out != "" {
						f.args, f.dest = append(f.args, "-o", out), out
					}
					f.player = func(x *aldaEnv, p string) {
						fh, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
						if err != nil {
							return
						}
						defer fh.Close()
						fh.Write(small[:n])
						time.Sleep(350 * time.Millisecond)
						fh.Write(small[n:])
					}
					if !yield(fmt.Sprintf("pause after %d bytes, to %q", n, out), f) {
						return
					}
				}
			}
			if c.Thorough {
				for _, what := range []string{"nothing", "half", "junk"} {
					f := &fcase{args: []string{"export", "-c", "piano: c8", "-o", "out.mid"}, files: []string{"out.mid", "my recording"}, fails: true}
					what := what
					f.player = func(x *aldaEnv, p string) {
						switch what {
						case "half":
							os.WriteFile(p, small[:len(small)/2], 0644)
						case "junk":
							os.WriteFile(p, []byte("junk"), 0644)
						}
					}
					if !yield("the player writes "+what, f) {
						return
					}
				}
			}
		}, run)
		c.fullOutput(workers)
		c.fileFaults(midi)
		c.replFiles()
		c.replAnswers()
	})
}

func midiSmall() []byte {
	b := []byte("MThd\x00\x00\x00\x06\x00\x01\x00\x02\x00\x60")
	b = append(b, "MTrk\x00\x00\x00\x04\x00\xff\x2f\x00"...)
	return append(b, "MTrk\x00\x00\x00\x08\x00\x90\x3c\x40\x00\xff\x2f\x00"...)
}

// fullOutput: the standard output cannot be written to.
func (c *Ctx) fullOutput(workers int) {
	c.ExploreN("standard output that is full", workers, func(yield func(string, any) bool) {
		for _, cmd := range []string{"format", "import", "export"} {
			if !yield("alda "+cmd+" to a full device", cmd) {
				return
			}
		}
	}, func(key string, v any) *Fail {
		x, err := newAldaEnv()
		if err != nil {
			return failf(key, "%v", err)
		}
		defer x.close()
		x.set("ALDA_DISABLE_SPAWNING=yes")
		buildFiles(filepath.Join(x.dir, "cwd"), []string{"a.alda", "piano: c  d", "a.xml", goodXML})
		args := map[string][]string{"format": {"-f", "a.alda"}, "import": {"-i", "musicxml", "-f", "a.xml"}, "export": {"-f", "a.alda"}}[v.(string)]
		pf := x.place(0, pkinds["ready"])
		defer pf.ear.l.Close()
		pf.ear.on = func(e *ear, m omsg) {
			if m.addr == "/system/midi/export" {
				os.WriteFile(m.args[0].(string), midiSmall(), 0644)
			}
		}
		r, err := x.startWith(nil, append([]string{"/bin/sh", "-c", `exec "$@" > /dev/full`, "sh", os.Getenv("VERIF_ALDA"), v.(string)}, args...))
		if err != nil {
			return failf(key, "%v", err)
		}
		if !r.wait(60 * time.Second) {
			return failf(key, "it does not end")
		}
		if r.code == 0 {
			return failf(key, "it reports success although nothing could be written: %s", r.text())
		}
		c.Trans(1)
		c.Trace()
		return nil
	})
}

// fileFaults: every fault at every system call that concerns the user's files.
func (c *Ctx) fileFaults(midi []byte) {
	long := "piano: " + strings.Repeat("c4 (vol 50) [d e]*3 ", 4)
	longF, _ := formatted(long, 0, "")
	imp, _ := imported(goodXML)
	small := midiSmall()
	play := func(x *aldaEnv, p string) { os.WriteFile(p, small, 0644) }
	cmds := []struct {
		name string
		f    *fcase
	}{
		{"format over a file", &fcase{args: []string{"format", "-f", "a.alda", "-o"}, files: []string{"a.alda", long, "other", "x"}, dest: "a.alda", want: longF}},
		{"format over a private file", &fcase{args: []string{"format", "-f", "a.alda", "-o"}, files: []string{"a.alda@600", long}, dest: "a.alda", want: longF}},
		{"format over a link", &fcase{args: []string{"format", "-f", "a.alda", "-o"}, files: []string{"b.alda", long, "a.alda->b.alda", ""}, dest: "b.alda", want: longF}},
		{"format to the output", &fcase{args: []string{"format", "-f", "a.alda"}, files: []string{"a.alda", long}, want: longF}},
		{"import to a new file", &fcase{args: []string{"import", "-i", "musicxml", "-f", "a.xml", "-o", "a.alda"}, files: []string{"a.xml", goodXML}, dest: "a.alda", want: imp}},
		{"import over a file", &fcase{args: []string{"import", "-i", "musicxml", "-f", "a.xml", "-o", "a.alda"}, files: []string{"a.xml", goodXML, "a.alda", "my work"}, dest: "a.alda", want: imp}},
		{"import over its source", &fcase{args: []string{"import", "-i", "musicxml", "-f", "a.xml", "-o", "a.xml"}, files: []string{"a.xml", goodXML}, dest: "a.xml", want: imp}},
		{"export to a new file", &fcase{args: []string{"export", "-f", "a.alda", "-o", "a.mid"}, files: []string{"a.alda", "piano: c8"}, dest: "a.mid", want: string(small), player: play}},
		{"export over a file", &fcase{args: []string{"export", "-f", "a.alda", "-o", "a.mid"}, files: []string{"a.alda", "piano: c8", "a.mid", "my recording"}, dest: "a.mid", want: string(small), player: play}},
	}
	// a REPL server whose score is known, for clients that save it
	srv, err := startServer()
	if err != nil {
		c.report(failf("REPL server", "%v", err))
		return
	}
	defer srv.close()
	srv.exportBytes = small
	conn, err := srv.dial()
	if err == nil {
		_, err = conn.ask(map[string]any{"op": "load", "code": "piano: c8 d e"}, 40*time.Second)
		conn.close()
	}
	if err != nil {
		c.report(failf("REPL server", "%v", err))
		return
	}
	port := func() int { return srv.port }
	client := []string{"repl", "--client", "--port"}
	for _, l := range []struct{ line, dest, want string }{
		{":save a.alda", "a.alda", "piano: c8 d e"}, {":save n.alda", "n.alda", "piano: c8 d e"}, {":save l.alda", "a.alda", "piano: c8 d e"},
		{":export a.mid", "a.mid", string(srv.exportBytes)}, {":export n.mid", "n.mid", string(srv.exportBytes)},
	} {
		cmds = append(cmds, struct {
			name string
			f    *fcase
		}{"REPL " + l.line, &fcase{args: client, port: port, repl: true, stdin: l.line + "\n", dest: l.dest, want: l.want,
			files: []string{"a.alda@640", "my work", "l.alda->a.alda", "", "a.mid", "my recording"}}})
	}
	type fc struct {
		f  *fcase
		ft *fault
		e  *sysEvent
	}
	works := true
	c.ExploreN("faults", 32, func(yield func(string, any) bool) {
		for _, cm := range cmds {
			var evs []*sysEvent
			r, err := runFiles(cm.f, nil, &evs)
			if err != nil || r.code == 99 {
				works = false
				why := fmt.Sprint(err)
				if r != nil {
					why += " " + r.text()
				}
				c.Set("fault_injection", "not available here: "+why)
				return
			}
			if d := cm.f.finished(r); d != "" {
				if !yield(cm.name+" traced", &fc{cm.f, nil, &sysEvent{Call: d}}) {
					return
				}
				continue
			}
			var names []string
			for k, e := range evs {
				names = append(names, e.Call)
				var fts []*fault
				errs := map[string][]syscall.Errno{
					"read": {syscall.EIO}, "sync": {syscall.EIO, syscall.ENOSPC}, "close": {syscall.EIO}, "truncate": {syscall.EIO},
					"chmod": {syscall.EPERM}, "rename": {syscall.EACCES, syscall.EXDEV, syscall.ENOSPC}, "unlink": {syscall.EPERM}, "link": {syscall.EPERM},
					"open": {syscall.EACCES, syscall.EMFILE}, "write": {syscall.ENOSPC, syscall.EIO}, "writev": {syscall.ENOSPC}, "copy": {syscall.EIO},
				}[e.Call]
				if e.Call == "open" && e.Write {
					errs = append(errs, syscall.ENOSPC, syscall.EROFS)
				}
				for _, er := range errs {
					fts = append(fts, &fault{K: k, Errno: int(er), Cut: -1})
				}
				fts = append(fts, &fault{K: k, Kill: true, Cut: -1})
				if e.Call == "write" {
					for n := 0; n < int(e.Count); n++ {
						if !c.Thorough && n%8 != 0 && n > 3 && n < int(e.Count)-3 {
							continue
						}
						fts = append(fts, &fault{K: k, Kill: true, Cut: n})
						if n > 0 {
							fts = append(fts, &fault{K: k, Cut: n, Errno: int(syscall.ENOSPC)}, &fault{K: k, Cut: n})
						}
					}
				}
				for _, ft := range fts {
					b, _ := json.Marshal(ft)
					if !yield(fmt.Sprintf("%s: %s %s", cm.name, e.Call, b), &fc{cm.f, ft, e}) {
						return
					}
				}
			}
			c.State(cm.name + " " + strings.Join(names, ","))
			c.Sample(cm.name + ": " + strings.Join(names, " "))
		}
	}, func(key string, v any) *Fail {
		h := v.(*fc)
		if h.ft == nil {
			return failf(key, "%s", h.e.Call)
		}
		r, err := runFiles(h.f, h.ft, nil)
		if err != nil {
			return failf(key, "%v", err)
		}
		if d := h.f.faulted(r, h.ft, h.e); d != "" {
			return failf(key, "%s", d)
		}
		c.Nontrivial()
		c.Outcome(fmt.Sprintf("%s %d %v", h.e.Call, r.code, r.after[h.f.dest] == r.before[h.f.dest]))
		c.Trans(1)
		c.Trace()
		return nil
	})
	if works {
		c.Set("fault_injection", "ptrace")
	}
}

// replAnswers: a server that answers in every way to what writes files.
func (c *Ctx) replAnswers() {
	cmds, answers := cliCmds(), answerKinds()
	c.ExploreN("answers to a REPL client that writes files", 24, func(yield func(string, any) bool) {
		for i := range cmds {
			if cmds[i].files == nil {
				continue
			}
			for j := range answers {
				if !answers[j].fits(&cmds[i]) {
					continue
				}
				if !yield(cmds[i].line+", "+answers[j].name, []cliStep{{&cmds[i], &answers[j]}}) {
					return
				}
			}
		}
	}, func(key string, v any) *Fail { return c.cli(key, v.([]cliStep), false) })
}

// replFiles: histories of :load, :save, :export and inputs in a REPL client.
func (c *Ctx) replFiles() {
	pool := &srvPool{}
	defer pool.closeAll()
	files := []string{"a.alda", "piano: c8 d\n", "b.alda", "violin: e8\ncello: f", "bad.alda", "piano: c (vol 500)", "syntax.alda", "piano: ]", "dir/", "", "l.alda->a.alda", "", "m.mid", "my recording"}
	text := map[string]string{"a.alda": files[1], "b.alda": files[3], "l.alda": files[1]}
	ops := []string{":load a.alda", ":load b.alda", ":load bad.alda", ":load syntax.alda", ":load nothing.alda", ":load dir", ":load l.alda", ":load a.alda b.alda", ":load",
		":save", ":save a.alda", ":save n.alda", ":save nowhere/n.alda", ":save dir", ":save l.alda", ":save x y", "piano: g8", "piano: (vol 500)",
		":export m.mid", ":export k.mid", ":export nowhere/k.mid", ":export dir", ":export", ":new"}
	core := []string{":load a.alda", ":load bad.alda", ":load nothing.alda", ":load", ":save", ":save n.alda", ":save nowhere/n.alda", "piano: g8", ":new"}
	c.ExploreN("files of a REPL session", srvWorkers, func(yield func(string, any) bool) {
		for _, a := range ops {
			if !yield(a, []string{a}) {
				return
			}
		}
		for _, a := range ops {
			for _, b := range ops {
				if !yield(a+" ; "+b, []string{a, b}) {
					return
				}
			}
		}
		set := core
		if c.Thorough {
			set = ops
		}
		for _, a := range set {
			for _, b := range set {
				for _, d := range set {
					if !yield(strings.Join([]string{a, b, d}, " ; "), []string{a, b, d}) {
						return
					}
				}
			}
		}
	}, func(key string, v any) *Fail {
		hist := v.([]string)
		return pool.with(key, func(s *replSrv) *Fail {
			x, err := newAldaEnv()
			if err != nil {
				return failf(key, "%v", err)
			}
			defer x.close()
			x.set("ALDA_DISABLE_SPAWNING=yes")
			cwd := filepath.Join(x.dir, "cwd")
			buildFiles(cwd, files)
			want := snapshot(cwd)
			r, err := x.start(strings.NewReader(strings.Join(hist, "\n")+"\n"), "repl", "--client", "--port", fmt.Sprint(s.port))
			if err != nil {
				return failf(key, "%v", err)
			}
			if !r.wait(100 * time.Second) {
				return failf(key, "the client does not end: %s", r.text())
			}
			if r.code != 0 {
				return failf(key, "the client fails: %s", r.text())
			}
			// the model: the score, the remembered file, the files, the reports
			var score []string
			path := ""
			errs := 0
			cur := map[string]string{}
			for k, t := range text {
				cur[k] = t
			}
			saved := map[string]string{}
			base := func(p string) string {
				if p == "l.alda" {
					return "a.alda"
				}
				return p
			}
			for _, op := range hist {
				w := strings.Fields(op)
				target := path
				if len(w) == 2 {
					target = w[1]
				}
				ok := false
				switch w[0] {
				case ":load":
					t, good := cur[base(target)]
					if ok = len(w) <= 2 && target != "" && good; ok {
						score, path = []string{t}, target
					}
				case ":save":
					if ok = len(w) <= 2 && target != "" && target != "dir" && !strings.HasPrefix(target, "nowhere/"); ok {
						t := strings.Join(score, "\n")
						cur[base(target)], saved[base(target)], path = t, t, target
					}
				case ":export":
					if ok = len(w) == 2 && target != "dir" && !strings.HasPrefix(target, "nowhere/"); ok {
						mode := "644"
						if old, there := want[target]; there {
							mode, _ = content(old)
						}
						want[target] = mode + " " + string(s.exportBytes)
					}
				case ":new":
					ok, score = true, nil
				default:
					if ok = !strings.Contains(op, "500"); ok {
						score = append(score[:len(score):len(score)], op)
					}
				}
				if !ok {
					errs++
				}
			}
			got := snapshot(cwd)
			for f, t := range saved {
				_, g := content(got[f])
				if lines(g) != lines(t) {
					return failf(key, "%s contains %q, expected %q; %s", f, g, t, r.text())
				}
				if old, there := want[f]; there {
					m, _ := content(old)
					if n, _ := content(got[f]); m != n {
						return failf(key, "the mode of %s was %s and is %s", f, m, n)
					}
				}
				delete(got, f)
				delete(want, f)
			}
			if n, ok := got["k.mid"]; ok { // whatever mode new files get
				_, b := content(n)
				got["k.mid"] = "644 " + b
			}
			if d := changed(want, got, ""); d != "" {
				return failf(key, "%s; %s", d, r.text())
			}
			if d := c.checkSession(s, score); d != "" {
				return failf(key, "%s; %s", d, r.text())
			}
			n := strings.Count(r.out.String(), "ERROR") + strings.Count(r.err.String(), "ERROR")
			if n != errs {
				return failf(key, "%d requests fail, %d are reported: %s", errs, n, r.text())
			}
			c.Nontrivial()
			c.Outcome(fmt.Sprintf("errors %d saved %d", errs, len(saved)))
			c.Trans(len(hist))
			c.Trace()
			return nil
		})
	})
}
