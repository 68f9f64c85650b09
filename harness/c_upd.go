package main

// P27: what `alda update` (and every other run of alda) does to the installed
// executables and to the files around them, for every answer of the release
// server, under every failure of a system call and after a kill at every
// system call. The release server is a stand-in that alda reaches as a proxy.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// webReq is a request that the stand-in has received.
type webReq struct {
	method, host, path, body string
}

// web stands in for the internet: alda's connections to anywhere end here.
type web struct {
	l     net.Listener
	mu    sync.Mutex
	reqs  []webReq
	conns []net.Conn
	serve func(rq webReq, w io.Writer) // writes the whole response; the connection is closed afterwards
	wg    sync.WaitGroup
}

var webCert struct {
	once sync.Once
	pem  []byte
	tls  tls.Certificate
	err  error
}

func webCertificate() error {
	w := &webCert
	w.once.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			w.err = err
			return
		}
		t := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
			KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: true,
			DNSNames: []string{"api.alda.io", "files.alda.test"},
		}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		if err != nil {
			w.err = err
			return
		}
		w.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
		w.tls = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	})
	return w.err
}

func newWeb(x *aldaEnv, serve func(rq webReq, w io.Writer)) (*web, error) {
	if err := webCertificate(); err != nil {
		return nil, err
	}
	ca := filepath.Join(x.dir, "ca.pem")
	if err := os.WriteFile(ca, webCert.pem, 0644); err != nil {
		return nil, err
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	w := &web{l: l, serve: serve}
	p := "http://" + l.Addr().String()
	x.set("SSL_CERT_FILE="+ca, "SSL_CERT_DIR="+x.dir, "HTTPS_PROXY="+p, "HTTP_PROXY="+p, "https_proxy="+p, "http_proxy="+p, "NO_PROXY=", "no_proxy=")
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			w.wg.Add(1)
			w.mu.Lock()
			w.conns = append(w.conns, conn)
			w.mu.Unlock()
			go func() {
				defer w.wg.Done()
				defer conn.Close()
				w.handle(conn)
			}()
		}
	}()
	return w, nil
}

func (w *web) handle(conn net.Conn) {
	rd := bufio.NewReader(conn)
	rq, err := http.ReadRequest(rd)
	if err != nil {
		return
	}
	host := rq.Host
	if rq.Method == "CONNECT" {
		if _, err := io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n"); err != nil {
			return
		}
		cfg := &tls.Config{Certificates: []tls.Certificate{webCert.tls}, NextProtos: []string{"http/1.1"}}
		t := tls.Server(conn, cfg)
		if rq, err = http.ReadRequest(bufio.NewReader(t)); err != nil {
			return
		}
		b, _ := io.ReadAll(rq.Body)
		w.answer(webReq{rq.Method, host, rq.URL.RequestURI(), string(b)}, t)
		t.CloseWrite()
		return
	}
	b, _ := io.ReadAll(rq.Body)
	w.answer(webReq{rq.Method, host, rq.URL.String(), string(b)}, conn)
}

func (w *web) answer(q webReq, c io.Writer) {
	w.mu.Lock()
	w.reqs = append(w.reqs, q)
	w.mu.Unlock()
	w.serve(q, c)
}

func (w *web) close() {
	w.l.Close()
	w.mu.Lock()
	for _, c := range w.conns {
		c.Close()
	}
	w.mu.Unlock()
	w.wg.Wait()
}

func (w *web) requests() []webReq {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]webReq{}, w.reqs...)
}

func httpAnswer(w io.Writer, status int, body string) {
	fmt.Fprintf(w, "HTTP/1.1 %d %s\r\nContent-Length: %d\r\nContent-Type: application/json\r\nConnection: close\r\n\r\n%s", status, http.StatusText(status), len(body), body)
}

// dl is how a file is served.
type dl struct {
	name string
	how  func(w io.Writer, body string)
	bad  bool
	slow bool
}

func chunked(w io.Writer, parts []string, end bool) {
	io.WriteString(w, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
	for _, p := range parts {
		if p != "" {
			fmt.Fprintf(w, "%x\r\n%s\r\n", len(p), p)
		}
	}
	if end {
		io.WriteString(w, "0\r\n\r\n")
	}
}

func cutAt(n func(l int) int) func(w io.Writer, body string) {
	return func(w io.Writer, body string) {
		fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(body), body[:n(len(body))])
	}
}

func downloads() []dl {
	ok := func(w io.Writer, b string) { httpAnswer(w, 200, b) }
	st := func(n int) func(w io.Writer, b string) {
		return func(w io.Writer, b string) { httpAnswer(w, n, b) }
	}
	ds := []dl{
		{name: "whole", how: ok},
		{name: "in chunks", how: func(w io.Writer, b string) { chunked(w, []string{b[:1], b[1:]}, true) }},
		{name: "in two parts", how: func(w io.Writer, b string) {
			fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(b), b[:len(b)/2])
			time.Sleep(300 * time.Millisecond)
			io.WriteString(w, b[len(b)/2:])
		}},
	}
	for _, n := range []int{201, 204, 206, 301, 304, 400, 401, 403, 404, 429, 500, 503} {
		ds = append(ds, dl{name: fmt.Sprint("status ", n), how: st(n), bad: true})
	}
	ds = append(ds,
		dl{name: "cut before the first byte", how: cutAt(func(l int) int { return 0 }), bad: true},
		dl{name: "cut after the first byte", how: cutAt(func(l int) int { return 1 }), bad: true},
		dl{name: "cut in the middle", how: cutAt(func(l int) int { return l / 2 }), bad: true},
		dl{name: "cut before the last byte", how: cutAt(func(l int) int { return l - 1 }), bad: true},
		dl{name: "chunks without an end", how: func(w io.Writer, b string) { chunked(w, []string{b}, false) }, bad: true},
		dl{name: "no chunk", how: func(w io.Writer, b string) { chunked(w, nil, false) }, bad: true},
		dl{name: "no answer", how: func(w io.Writer, b string) {}, bad: true},
		dl{name: "half a header", how: func(w io.Writer, b string) { io.WriteString(w, "HTTP/1.1 200 OK\r\nContent-Le") }, bad: true},
		dl{name: "junk", how: func(w io.Writer, b string) { io.WriteString(w, "junk\r\n\r\n"+b) }, bad: true},
	)
	return ds
}

type updAsset struct {
	name string
	body string
	dl   dl
	kind string
}

// updCase is an update.
type updCase struct {
	args     []string
	stdin    string
	status   int    // of the answer about releases
	answer   string // the answer, "" if made from the assets
	releases int
	assets   []updAsset
	files    []string // in the directory of the executables
	install  string   // "all", "player", "nothing"; nothing changes otherwise
	fails    bool
	either   bool
	anyExit  bool
	path     bool // the directory is on the PATH
}

const (
	newAlda   = "#!/bin/sh\n# the new version\necho alda 99.9.9\n"
	newPlayer = "#!/bin/sh\n# the new player\necho alda-player 99.9.9\nexit 0\n"
	oldPlayer = "#!/bin/sh\n# the old player\necho alda-player 0.0.1\nexit 0\n"
)

// files that are none of alda's business
var bystanders = []string{"README.md", "text", "alda.old", "x", "old/", "", "my-alda.notes", "y", "geralda.1615061099.2081.old", "letters from geralda", "alda.1615061099.2081.older", "z", "alda-player.1.2.old.txt", "z", "notalda-player.1.2.old", "z",
	"alda.1.2.3.old", "z", "alda.1615061099.2081.old.d/", "", "aldaX.1.2.old", "z", "alda.1615061099.2081.OLD", "z", "zalda.exe.1.2.old", "z", ".alda", "z", "alda.tmp", "z", "alda.new", "z", "alda-player.new", "z"}

// leftovers of earlier updates
var leftovers = []string{"alda.1615061099.2081.old", "the version before", "alda-player.1615061099.7.old", "the player before"}

func release(as []updAsset) map[string]any {
	var l []any
	for _, a := range as {
		kind := a.kind
		if kind == "" {
			kind = "executable"
		}
		l = append(l, map[string]any{"name": a.name, "type": kind, "url": "https://files.alda.test/99/" + a.name})
	}
	return map[string]any{"version": "99.9.9", "date": "2030-01-01", "changelog": "* more", "assets": map[string]any{runtime.GOOS + "-" + runtime.GOARCH: l, "plan9-mips": []any{}}}
}

func instSnapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
		case fi.IsDir():
			out[rel] = fmt.Sprintf("directory %o", fi.Mode().Perm())
		case fi.Size() > 1<<16:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%o sha256:%x", fi.Mode().Perm(), sha256.Sum256(b))
		default:
			b, _ := os.ReadFile(p)
			out[rel] = fmt.Sprintf("%o %s", fi.Mode().Perm(), b)
		}
		return nil
	})
	return out
}

type updRun struct {
	*aldaRun
	before, after map[string]string
	tmp           map[string]string
	reqs          []webReq
	events        []*sysEvent
	later         map[string]string // after another run of alda
}

var oldExec = regexp.MustCompile(`^alda(-player)?(\.exe)?\.\d+\.\d+\.old$`)

func runUpdate(u *updCase, ft *fault, trace bool) (*updRun, error) {
	x, err := newAldaEnv()
	if err != nil {
		return nil, err
	}
	defer x.close()
	x.set("ALDA_DISABLE_SPAWNING=yes")
	inst := filepath.Join(x.dir, "io", "inst")
	tmp := filepath.Join(x.dir, "io", "tmp")
	for _, d := range []string{inst, tmp} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return nil, err
		}
	}
	x.set("TMPDIR=" + tmp)
	if u.path {
		x.set("PATH=" + inst + ":/usr/bin:/bin")
	}
	exe := filepath.Join(inst, "alda")
	runner := filepath.Join(inst, "run-alda")
	// copied by another process, so that no writable descriptor is inherited
	// by a process that is started at the same time
	if b, err := exec.Command("/bin/sh", "-c", `cp "$1" "$2" && chmod 755 "$2" && ln "$1" "$3" 2>/dev/null || cp "$1" "$3"`, "sh", os.Getenv("VERIF_ALDA"), exe, runner).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("copy: %v %s", err, b)
	}
	buildFiles(inst, u.files)
	byURL := map[string]updAsset{}
	for _, a := range u.assets {
		byURL["/99/"+a.name] = a
	}
	w, err := newWeb(x, func(q webReq, out io.Writer) {
		switch {
		case strings.HasPrefix(q.host, "files.alda.test"):
			if a, ok := byURL[q.path]; ok {
				a.dl.how(out, a.body)
			} else {
				httpAnswer(out, 404, "no such file")
			}
		case u.answer == "hang up":
		case u.answer != "":
			httpAnswer(out, u.status, u.answer)
		case strings.HasPrefix(q.path, "/releases/latest"):
			var rs []any
			for i := 0; i < u.releases; i++ {
				rs = append(rs, release(u.assets))
			}
			if rs == nil {
				rs = []any{}
			}
			b, _ := json.Marshal(map[string]any{"explanation": "news", "releases": rs})
			httpAnswer(out, u.status, string(b))
		case strings.HasPrefix(q.path, "/release/"):
			b, _ := json.Marshal(release(u.assets))
			httpAnswer(out, u.status, string(b))
		default:
			httpAnswer(out, 404, "{}")
		}
	})
	if err != nil {
		return nil, err
	}
	defer w.close()
	r := &updRun{before: instSnapshot(inst)}
	var in io.Reader = strings.NewReader(u.stdin)
	args := u.args
	if !trace && ft == nil {
		r.aldaRun, err = x.startWith(in, append([]string{exe}, args...))
	} else {
		spec := ""
		if ft != nil {
			b, _ := json.Marshal(ft)
			spec = string(b)
		}
		real, err2 := filepath.EvalSymlinks(filepath.Join(x.dir, "io"))
		if err2 != nil {
			return nil, err2
		}
		r.aldaRun, err = x.startWith(in, append([]string{os.Getenv("VERIF_MC"), "tracer", filepath.Join(x.dir, "log"), real, spec, exe}, args...))
	}
	if err != nil {
		return nil, err
	}
	if !r.wait(60 * time.Second) {
		return nil, fmt.Errorf("the command does not end: %s", r.text())
	}
	if trace || ft != nil {
		b, err := os.ReadFile(filepath.Join(x.dir, "log"))
		if err != nil {
			return nil, fmt.Errorf("no trace: %v: %s", err, r.text())
		}
		if err := json.Unmarshal(b, &r.events); err != nil {
			return nil, err
		}
	}
	r.after, r.tmp, r.reqs = instSnapshot(inst), snapshot(tmp), w.requests()
	// the next run of alda from this directory
	nx, err := x.startWith(nil, []string{runner, "version"})
	if err != nil {
		return nil, err
	}
	if !nx.wait(60*time.Second) || nx.code != 0 {
		return nil, fmt.Errorf("the next run of alda fails: %s", nx.text())
	}
	r.later = instSnapshot(inst)
	return r, nil
}

// check judges what has happened to the directory. Without a fault, the whole
// outcome is known.
func (u *updCase) check(r *updRun, ft *fault) string {
	news := map[string]string{}
	if u.install != "nothing" {
		for _, a := range u.assets {
			if u.install == "all" || a.name == "alda-player" {
				news[a.name] = a.body
				if len(a.body) > 1<<16 {
					news[a.name] = fmt.Sprintf("sha256:%x", sha256.Sum256([]byte(a.body)))
				}
			}
		}
	}
	killed := r.code == 137
	if ft != nil && ft.Kill && !killed {
		killed = true // it had ended before, or another event came first
	}
	installed, kept := 0, 0
	for _, n := range sortedKeys(news) {
		mode, text := content(r.after[n])
		switch {
		case text == news[n]:
			if r.after[n] != r.before[n] {
				installed++
			}
			var m uint32
			fmt.Sscanf(mode, "%o", &m)
			chmodFailed := false
			for _, e := range r.events {
				chmodFailed = chmodFailed || e.Call == "chmod" && e.Ret < 0
			}
			if m&0111 != 0111 && !chmodFailed {
				return fmt.Sprintf("the new %s is not executable (%s)", n, mode)
			}
			if m&0111 != 0111 && r.code == 0 {
				return fmt.Sprintf("success is reported, but the new %s is not executable (%s)", n, mode)
			}
		case r.after[n] == r.before[n]:
			kept++
		default:
			return fmt.Sprintf("%s was %.80q and is %.80q, not as before and not the new version %.80q; %s", n, r.before[n], r.after[n], news[n], r.text())
		}
	}
	// everything else
	for _, k := range sortedKeys(r.before) {
		if _, ok := news[k]; ok {
			continue
		}
		if _, is := r.after[k]; !is && oldExec.MatchString(k) {
			continue // may or may not be deleted by now
		}
		if r.after[k] != r.before[k] {
			return fmt.Sprintf("%s was %.80q and is %.80q; %s", k, r.before[k], r.after[k], r.text())
		}
		if r.later[k] != r.before[k] && !oldExec.MatchString(k) {
			return fmt.Sprintf("the next run of alda changes %s from %.80q to %.80q", k, r.before[k], r.later[k])
		}
	}
	for _, k := range sortedKeys(r.later) {
		if oldExec.MatchString(k) {
			return fmt.Sprintf("%s is left there by the next run of alda", k)
		}
	}
	for _, k := range sortedKeys(news) {
		if r.later[k] != r.after[k] {
			return fmt.Sprintf("the next run of alda changes %s from %.80q to %.80q", k, r.after[k], r.later[k])
		}
	}
	if strings.Contains(r.err.String(), "goroutine ") {
		return "it crashes: " + r.text()
	}
	if killed {
		return ""
	}
	unlinkFailed := false
	for _, e := range r.events {
		unlinkFailed = unlinkFailed || e.Call == "unlink" && e.Ret < 0
	}
	for _, k := range sortedKeys(r.later) {
		if _, ok := r.before[k]; !ok && news[k] == "" && !unlinkFailed {
			return fmt.Sprintf("%s is left behind; %s", k, r.text())
		}
	}
	if len(r.tmp) > 0 && ft == nil {
		return fmt.Sprintf("temporary files are left: %v; %s", sortedKeys(r.tmp), r.text())
	}
	if u.anyExit && ft == nil {
		if kept > 0 {
			return "not all is installed: " + r.text()
		}
		return ""
	}
	switch {
	case r.code != 0 && strings.TrimSpace(r.err.String()) == "":
		return "it fails without a report"
	case r.code == 0 && kept > 0:
		return "success is reported, but not all is installed: " + r.text()
	case ft != nil:
	case u.either:
	case u.fails && r.code == 0:
		return "it cannot succeed, but reports success: " + r.text()
	case u.fails && installed > 0:
		return "failure is reported, but there is a new executable: " + r.text()
	case !u.fails && r.code != 0:
		return "it fails: " + r.text()
	case !u.fails && kept > 0:
		return "not all is installed: " + r.text()
	}
	return ""
}

func init() {
	register("P27", "fault_enumeration", func(c *Ctx) {
		c.stubborn = 2
		hangLimit = 150 * time.Second
		c.Rule("evaluations = runs of a copy of the real alda binary in a directory of its own, with a release server that is a stand-in; after every run the whole directory is compared with what it was, alda is run once more from there, and the directory is compared again; distinct_nontrivial = runs that fail, are disturbed or change a file; in the fault phases every system call that concerns a file of the directory or the temporary directory is a fault position, at which the call fails with each possible error, a write is cut at every length, or the process is killed")
		c.Assume("the file system's rename is atomic; the way a running executable has to be renamed on Windows is not run here; what a power failure does to data that was written but not synced is not modelled")
		const workers = 24
		run := func(key string, v any) *Fail {
			u := v.(*updCase)
			r, err := runUpdate(u, nil, false)
			if err != nil {
				return failf(key, "%v", err)
			}
			if d := u.check(r, nil); d != "" {
				return failf(key, "%s", d)
			}
			c.State(fmt.Sprint(u.args, u.stdin, u.status, u.answer, len(u.assets)))
			c.Outcome(fmt.Sprint(r.code, len(r.reqs), r.after["alda"] == r.before["alda"], r.after["alda-player"] == r.before["alda-player"]))
			if r.code != 0 || changed(r.before, r.after, "") != "" {
				c.Nontrivial()
			}
			c.Trans(len(r.reqs))
			c.Trace()
			return nil
		}
		ds := downloads()
		whole := ds[0]
		both := func(a, b dl) []updAsset {
			return []updAsset{{name: "alda", body: newAlda, dl: a}, {name: "alda-player", body: newPlayer, dl: b}}
		}
		files := append(append([]string{"alda-player@755", oldPlayer}, bystanders...), leftovers...)
		yes := []string{"update", "--yes"}
		upd := func(as []updAsset) *updCase {
			return &updCase{args: yes, status: 200, releases: 1, assets: as, files: files, install: "all"}
		}
		c.ExploreN("downloads", workers, func(yield func(string, any) bool) {
			for _, a := range ds {
				for _, b := range ds {
					for _, v := range [][]string{yes, {"update", "-y", "--version", "99.9.9"}} {
						u := upd(both(a, b))
						u.args = v
						u.fails = a.bad || b.bad
						if !yield(fmt.Sprintf("%s: alda %s, alda-player %s", strings.Join(v, " "), a.name, b.name), u) {
							return
						}
					}
				}
			}
			big := strings.Repeat("0123456789abcdef", 1<<14)
			for _, n := range []int{1, 2, 3, 4} {
				for bad := -1; bad < n; bad++ {
					var as []updAsset
					for i, nm := range []string{"alda", "alda-player", "alda-extra", "alda-more"}[:n] {
						a := updAsset{name: nm, body: fmt.Sprintf("#!/bin/sh\n# %s\n%s", nm, big[:len(big)>>i]), dl: whole}
						if i == bad {
							a.dl = ds[len(ds)-7]
						}
						as = append(as, a)
					}
					u := upd(as)
					u.fails = bad >= 0
					if !yield(fmt.Sprintf("%d assets, download %d fails", n, bad), u) {
						return
					}
				}
			}
		}, run)
		c.ExploreN("what is installed before", workers, func(yield func(string, any) bool) {
			for _, p := range []struct {
				name  string
				files []string
			}{
				{"no player", nil}, {"private player", []string{"alda-player@700", oldPlayer}}, {"player that cannot be run", []string{"alda-player@644", oldPlayer}}, {"read-only player", []string{"alda-player@555", oldPlayer}},
				{"linked player", []string{"players/the-player@755", oldPlayer, "alda-player->players/the-player", ""}}, {"dangling player", []string{"alda-player->players/nowhere", ""}},
				{"the new player", []string{"alda-player@755", newPlayer}},
			} {
				for _, by := range [][]string{nil, bystanders, leftovers, files[2:]} {
					for _, d := range []dl{whole, ds[1], ds[len(ds)-7]} {
						for _, as := range [][]updAsset{both(whole, d), both(whole, d)[1:], both(d, d)[:1]} {
							u := upd(as)
							u.files, u.fails = append(p.files[:len(p.files):len(p.files)], by...), d.bad
							if !yield(fmt.Sprintf("%s, %d other files, %d assets, %s", p.name, len(by)/2, len(as), d.name), u) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.ExploreN("answers about releases", workers, func(yield func(string, any) bool) {
			good, _ := json.Marshal(release(both(whole, whole)))
			g := string(good)
			sub := func(a, b string) string {
				s := strings.ReplaceAll(g, a, b)
				if s == g {
					panic(a)
				}
				return s
			}
			rel := []string{
				g, sub(runtime.GOOS+"-"+runtime.GOARCH, "other-os"), sub(`"assets"`, `"things"`), sub(`"type":"executable"`, `"type":"archive"`), sub(`"type":"executable"`, `"kind":"executable"`),
				sub(`"type":"executable"`, `"type":7`), sub(`"name":"alda-player"`, `"name":null`), sub(`"name":"alda-player"`, `"title":"alda-player"`), sub(`"url":"https://files.alda.test/99/alda-player"`, `"url":[]`),
				sub("https://files.alda.test/99/alda-player", "https://files.alda.test/98/alda-player"), sub("https://files.alda.test/99/alda-player", "::"), sub("https://files.alda.test/99/alda-player", ""),
				sub(`{"name":"alda-player"`, `7,{"name":"alda-player"`), sub(`"version":"99.9.9"`, `"version":{}`), sub(`"date"`, `"day"`), sub(`"changelog"`, `"changes"`),
				`{"version":"99.9.9","assets":{"` + runtime.GOOS + "-" + runtime.GOARCH + `":{}}}`, `{"version":"99.9.9","assets":[]}`, `{"version":"99.9.9","assets":null}`, "{}", "[]", "null", "7", `"x"`, "", "junk", g[:len(g)/2], g[:len(g)-1],
			}
			fine := map[int]bool{0: true, 13: true, 14: true, 15: true}
			for i, a := range rel {
				for _, form := range []string{"version", "list", "bare list", "two"} {
					for _, status := range []int{200, 201, 204, 302, 400, 404, 500} {
						u := upd(both(whole, whole))
						u.status, u.answer = status, a
						u.fails = !(status == 200 && fine[i])
						if u.fails {
							u.install = "nothing"
						}
						switch form {
						case "version":
							u.args = []string{"update", "--yes", "--version", "99.9.9"}
						case "list":
							u.answer = `{"explanation":"news","releases":[` + a + `]}`
							if a == "" && status == 200 { // an empty list
								u.fails = false
							}
						case "bare list":
							u.answer = `{"releases":[` + a + `]}`
							if a == "" && status == 200 {
								u.fails = false
							}
						case "two":
							// needs a choice that nobody is there to make
							u.answer = `{"releases":[` + a + "," + a + `]}`
							u.install, u.either = "nothing", true
						}
						if u.answer == "" {
							u.answer = " "
						}
						if status == 204 || status == 302 {
							if form != "version" || i > 0 {
								continue
							}
						}
						if !yield(fmt.Sprintf("release %d, %s, status %d", i, form, status), u) {
							return
						}
					}
				}
			}
			for i, a := range []string{`{"releases":7}`, `{"releases":{}}`, `{"releases":null}`, `{"releases":"x"}`, `{"explanation":7,"releases":[]}`, `{"explanation":"You are up to date!","releases":[]}`, `{}`, `[]`, "null", "7", "junk", "hang up"} {
				u := upd(nil)
				u.install, u.answer, u.fails = "nothing", a, true
				if i == 4 || i == 5 {
					u.fails = false
				}
				if i == 1 { // an empty object is an empty list of releases
					u.either = true
				}
				if !yield("answer "+a, u) {
					return
				}
			}
		}, run)
		c.ExploreN("consent", workers, func(yield func(string, any) bool) {
			lines := []string{"y\n", "yes\n", "YES\n", "\n", " y \n", "n\n", "no\n", "No\n", "maybe\n", "yn\n", "y", "n"}
			for n := 0; n <= 2; n++ {
				idx := make([]int, n)
				for {
					in := ""
					agreed, decided := false, false
					for _, i := range idx {
						in += lines[i]
					}
					for _, l := range strings.SplitAfter(in, "\n") {
						if decided {
							break
						}
						if !strings.HasSuffix(l, "\n") {
							break // an incomplete line
						}
						switch strings.ToLower(strings.TrimSpace(l)) {
						case "", "y", "yes":
							agreed, decided = true, true
						case "n", "no":
							decided = true
						}
					}
					for _, v := range [][]string{{"update"}, {"update", "--version", "99.9.9"}} {
						u := upd(both(whole, whole))
						u.args, u.stdin = v, in
						switch {
						case !decided && strings.HasSuffix("\n"+in, "\ny"):
							continue // may be taken as an answer or not
						case !decided:
							u.install, u.either = "nothing", true
						case !agreed:
							u.install = "nothing"
						}
						if !yield(fmt.Sprintf("%s, answer %q", strings.Join(v, " "), in), u) {
							return
						}
					}
					k := n - 1
					for ; k >= 0; k-- {
						if idx[k]++; idx[k] < len(lines) {
							break
						}
						idx[k] = 0
					}
					if k < 0 {
						break
					}
				}
			}
		}, run)
		c.ExploreN("other commands", workers, func(yield func(string, any) bool) {
			for _, a := range [][]string{{"version"}, {"--help"}, {}, {"parse", "-c", "piano: c"}, {"parse", "-c", "piano: ]"}, {"instruments"}, {"nonsense"}, {"ps"}, {"update", "--help"}, {"update", "--nonsense"}, {"format", "-f", "nothing"}, {"telemetry", "--disable"}} {
				for _, by := range [][]string{nil, bystanders, leftovers, files} {
					u := upd(nil)
					u.args, u.files, u.install, u.either = a, by, "nothing", true
					if !yield(fmt.Sprintf("%s, %d files", strings.Join(a, " "), len(by)/2), u) {
						return
					}
				}
			}
		}, run)
		c.ExploreN("installing the player that fits", workers, func(yield func(string, any) bool) {
			for _, d := range []int{0, 1, 2, 7, len(ds) - 7, len(ds) - 1} {
				for _, in := range []string{"y\n", "n\n", "\n", ""} {
					for _, pl := range []string{"old", "none"} {
						// the player says it has the right version and does nothing else
						as := both(whole, ds[d])
						u := upd(as)
						u.args, u.stdin, u.path, u.install = []string{"doctor", "--no-audio"}, in, true, "player"
						u.files = files[2:]
						if pl == "old" {
							u.files = files
						}
						if strings.HasPrefix(in, "n") || in == "" || ds[d].bad {
							u.install = "nothing"
						}
						u.anyExit = true
						if !yield(fmt.Sprintf("doctor, %s player, answer %q, download %s", pl, in, ds[d].name), u) {
							return
						}
						if d > 0 {
							continue
						}
						// other executables of the release, wherever they are in the list
						others := []string{"alda-player-debug", "alda-player-13", "alda-playe", "alda-players", "the-alda-player", "ALDA-PLAYER"}
						for k := 0; k <= len(others); k++ {
							v := *u
							v.assets = nil
							for i, n := range others {
								if i == k {
									v.assets = append(v.assets, as...)
								}
								v.assets = append(v.assets, updAsset{name: n, body: "another\n", dl: whole})
							}
							if k == len(others) {
								v.assets = append(v.assets, as...)
							}
							if !yield(fmt.Sprintf("doctor, %s player, answer %q, %d other executables first", pl, in, k), &v) {
								return
							}
						}
					}
				}
			}
		}, run)
		c.faultyUpdates(upd(both(whole, whole)), whole)
	})
}

// faultyUpdates: every failure at every system call of an update.
func (c *Ctx) faultyUpdates(u *updCase, whole dl) {
	type fc struct {
		u  *updCase
		ft *fault
	}
	c.ExploreN("faults", 16, func(yield func(string, any) bool) {
		one := *u
		one.assets = u.assets[1:]
		fresh := *u
		fresh.files = nil
		for _, cs := range []struct {
			name string
			u    *updCase
		}{{"both", u}, {"player only", &one}, {"no player before", &fresh}} {
			r, err := runUpdate(cs.u, nil, true)
			if err == nil {
				if d := cs.u.check(r, nil); d != "" {
					err = fmt.Errorf("%s", d)
				}
			}
			if err != nil {
				yield(cs.name+": "+err.Error(), &fc{})
				return
			}
			var names []string
			for k := 0; k < len(r.events)+2; k++ {
				e := &sysEvent{Call: "open", Write: true}
				if k < len(r.events) {
					e = r.events[k]
				}
				names = append(names, fmt.Sprintf("%s(%s)", e.Call, filepath.Base(e.Path)))
				var fts []*fault
				errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EPERM, syscall.EROFS, syscall.EXDEV, syscall.ETXTBSY, syscall.ENOENT}
				if e.Call == "close" || e.Call == "read" {
					errs = errs[:1]
				}
				if !c.Thorough && cs.u != u {
					errs = errs[:2]
				}
				for _, er := range errs {
					fts = append(fts, &fault{K: k, Errno: int(er), Cut: -1})
				}
				fts = append(fts, &fault{K: k, Kill: true, Cut: -1})
				if total := e.Count; e.Call == "write" || e.Call == "copy" && e.Ret > 0 {
					if e.Call == "copy" {
						total = e.Ret
					}
					for n := 0; n < int(total); n++ {
						if !c.Thorough && n%8 != 0 && n > 3 && n < int(total)-3 {
							continue
						}
						fts = append(fts, &fault{K: k, Kill: true, Cut: n})
						if n > 0 {
							fts = append(fts, &fault{K: k, Cut: n, Errno: int(syscall.ENOSPC)}, &fault{K: k, Cut: n})
						}
					}
				}
				for _, ft := range fts {
					b, _ := json.Marshal(ft)
					if !yield(fmt.Sprintf("%s: %s", cs.name, b), &fc{cs.u, ft}) {
						return
					}
				}
			}
			c.State(cs.name + " " + strings.Join(names, ","))
			c.Sample(cs.name + ": " + strings.Join(names, " "))
		}
	}, func(key string, v any) *Fail {
		h := v.(*fc)
		if h.u == nil {
			return failf(key, "%s", key)
		}
		r, err := runUpdate(h.u, h.ft, false)
		if err != nil {
			return failf(key, "%v", err)
		}
		if d := h.u.check(r, h.ft); d != "" {
			ev := ""
			if h.ft.K < len(r.events) {
				ev = r.events[h.ft.K].Call + " " + filepath.Base(r.events[h.ft.K].Path)
			}
			return failf(key, "fault at %s: %s", ev, d)
		}
		c.Nontrivial()
		c.Outcome(fmt.Sprintf("%d %v", r.code, r.after["alda"] == r.before["alda"]))
		c.Trans(1)
		c.Trace()
		return nil
	})
}
