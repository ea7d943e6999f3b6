//go:build cli

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/mlnoga/nightlight/internal/rest"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P30: the job server does each job it is sent as if it were alone, and says how it went.
func init() {
	register(&Prop{ID: "P30", Quick: 500, Rule: "Each case draws 2-6 requests to one server (jobs with directories of their own, malformed jobs, forbidden files, pings, downloads, preflights), their times, slow and vanishing clients, disk faults for one job, thread count and schedule. Non-trivial: two jobs ran at the same time.", Run: runP30})
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
}

var errGone = errors.New("connection reset by peer")

// conn is a simulated connection: the response writer of the server and the request body.
type conn struct {
	hdr     http.Header
	status  int
	msgs    []string
	busy    int
	overlap int
	late    int
	ended   bool
	slow    bool
	goneAt  int // response writes fail from this one on; -1 never
	cutAt   int // the request body breaks off here; -1 never
	body    []byte
	off     int
	panicV  interface{}
}

func (w *conn) Header() http.Header { return w.hdr }
func (w *conn) WriteHeader(s int) {
	if w.status == 0 {
		w.status = s
	}
}
func (w *conn) Flush() {}
func (w *conn) Write(p []byte) (int, error) {
	w.WriteHeader(200)
	w.busy++
	if w.busy > 1 {
		w.overlap++
	}
	if w.ended {
		w.late++
	}
	s := string(p)
	vsim.Point()
	if w.slow {
		vsim.Sleep(50 * time.Millisecond)
	}
	w.busy--
	if w.goneAt >= 0 && len(w.msgs) >= w.goneAt {
		return 0, errGone
	}
	w.msgs = append(w.msgs, s)
	return len(p), nil
}
func (w *conn) Read(p []byte) (int, error) {
	vsim.Point()
	if w.cutAt >= 0 && w.off >= w.cutAt {
		return 0, io.ErrUnexpectedEOF
	}
	if w.off >= len(w.body) {
		return 0, io.EOF
	}
	n := len(p)
	if n > 700 {
		n = 700
	}
	if w.slow {
		vsim.Sleep(10 * time.Millisecond)
	}
	n = copy(p[:n], w.body[w.off:])
	if w.cutAt >= 0 && w.off+n > w.cutAt {
		n = w.cutAt - w.off
	}
	w.off += n
	return n, nil
}
func (w *conn) text() string { return strings.Join(w.msgs, "") }

type httpCall struct {
	kind   string
	method string
	path   string
	j      *job
	start  time.Duration
	w      *conn
	done   bool
	alone  jobOutcome
	post   func(body string) // judges the answer
	own    string            // file of its own which a forbidden job loads
}

// serve puts the request to the server, as net/http does.
func (h *httpCall) serve(handler http.Handler) {
	req, err := http.NewRequest(h.method, "http://host"+h.path, io.NopCloser(h.w))
	if err != nil {
		panic(err)
	}
	req.RequestURI, req.RemoteAddr = h.path, "127.0.0.1:9"
	req.ContentLength = int64(len(h.w.body))
	req.Header.Set("Content-Type", "application/json")
	defer func() {
		if e := recover(); e != nil {
			h.w.panicV = e
		}
		h.w.ended = true
		h.done = true
	}()
	handler.ServeHTTP(h.w, req)
}

func newCall(kind, method, path string) *httpCall {
	return &httpCall{kind: kind, method: method, path: path, w: &conn{hdr: http.Header{}, goneAt: -1, cutAt: -1}}
}

func runP30(c *Case) {
	n := c.Int("n", 2, 5)
	cpu := c.Int("cpu", 1, 5)
	mem := c.Pick("mem", 2000, 2000, 1)
	r := c.Rand("http")
	own := fitsF32(40, 36, randData(r, 1440, 0, 1), "1.0")
	newFS := func() *vsim.FS {
		fs := vsim.NewFS()
		fs.Put("/secret.fits", fitsF32(4, 4, randData(r, 16, 0, 1), "1.0"))
		fs.Put("/etc/secret.txt", []byte("top secret"))
		return fs
	}
	var calls []*httpCall
	jobs := 0
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("req%d", i)
		h := &httpCall{w: &conn{hdr: http.Header{}, goneAt: -1, cutAt: -1}}
		h.kind = c.PickS(nm+".kind", "job", "job", "job", "job", "bad", "forbidden", "ping", "cut", "escape", "options", "index")
		h.start = time.Duration(c.Int(nm+".start", 0, 3)) * 30 * time.Millisecond
		h.method, h.path = "POST", "/api/v1/job"
		switch h.kind {
		case "job", "cut":
			h.j = drawJob(c, nm, string(rune('a'+i))+"/", true)
			h.j.mem = mem
			b, err := json.Marshal(h.j.mk())
			if err != nil {
				c.Fail("marshal", "%v", err)
			}
			h.w.body = b
			if h.kind == "cut" {
				h.w.cutAt = r.N(len(b))
			} else {
				jobs++
				if c.Bool(nm+".gone", 1, 5) {
					h.w.goneAt = c.Int(nm+".goneAt", 0, 8)
				}
			}
			h.w.slow = c.Bool(nm+".slow", 1, 5)
		case "bad":
			h.w.body = []byte(c.PickS(nm+".bad", "", "{", "nonsense", "[]", `{"type":"seq","steps":[{"type":"noSuchOp"}]}`, `{"type":"seq","steps":[{"typ":"load"}]}`,
				`{"type":"seq","steps":[{"type":"gamma","gamma":"x"}]}`, `{"type":"seq","steps":[{"type":"gamma","gamma":2}`))
		case "forbidden":
			own := string(rune('a'+i)) + "/own.fits"
			secret := c.PickS(nm+".path", "/secret.fits", "../secret.fits", "x/../../secret.fits")
			q := func(v string) string { b, _ := json.Marshal(v); return string(b) }
			load := `{"type":"load","id":0,"fileName":` + q(own) + `}`
			var st string
			write := c.PickS(nm+".write", "/evil.fits", "../evil.fits", "x/../../evil.fits", "/secret.fits", "/work/../evil%d.fits", "../work/../secret.fits")
			save := `{"type":"save","filePattern":` + q(write) + `}`
			switch c.PickS(nm+".as", "load", "many", "dark", "flat", "reference", "nested", "save", "saves", "stats", "stars", "background") {
			case "save":
				st = load + `,` + save
			case "saves":
				st = load + `,{"type":"seq","steps":[` + save + `,{"type":"normRange"}]}`
			case "stats":
				st = load + `,{"type":"exportStats","fileName":` + q(write) + `}`
			case "stars":
				st = load + `,{"type":"starDetect","sigma":2,"save":` + save + `}`
			case "background":
				st = load + `,{"type":"backExtract","gridSize":8,"save":` + save + `}`
			case "load":
				st = `{"type":"load","id":0,"fileName":` + q(secret) + `}`
			case "many":
				st = `{"type":"loadMany","filePatterns":[` + q(c.PickS(nm+".glob", secret, "/*.fits", "../*.fits", "/s*", "../../*/*.fits")) + `]}`
			case "dark":
				st = load + `,{"type":"calibrate","dark":` + q(secret) + `}`
			case "flat":
				st = load + `,{"type":"calibrate","flat":` + q(secret) + `}`
			case "reference":
				st = load + `,{"type":"selectRef","mode":` + q(secret) + `,"starDetect":{"type":"starDetect"}}`
			case "nested":
				st = `{"type":"seq","steps":[{"type":"loadMany","filePatterns":["../secret.fits","/secret.fits"]}]}`
			}
			h.own = own
			h.w.body = []byte(fmt.Sprintf(`{"type":"seq","steps":[%s,{"type":"save","filePattern":"stolen%d.fits"}]}`, st, i))
		case "ping":
			h.method, h.path = "GET", "/api/v1/ping"
		case "escape":
			h.method, h.path = "GET", "/api/v1/files/"+c.PickS(nm+".path", "../etc/secret.txt", "etc/secret.txt", "../../etc/secret.txt", "../../../../etc/secret.txt", "%2e%2e/etc/secret.txt", "..%2fetc%2fsecret.txt", "/etc/secret.txt", "./../etc/secret.txt")
		case "options":
			h.method, h.path = "OPTIONS", "/api/v1/job"
		case "index":
			h.method, h.path = "GET", "/"
		}
		calls = append(calls, h)
	}
	all := func() *vsim.FS {
		fs := newFS()
		for _, h := range calls {
			if h.j != nil {
				h.j.put(fs)
			}
			if h.own != "" {
				fs.Put(h.own, own)
			}
		}
		return fs
	}
	sorted := func(m []string) []string {
		m = append([]string{}, noProgress(m)...)
		sort.Strings(m)
		return m
	}
	for i, h := range calls {
		if h.kind == "job" {
			fs, log := all(), vsim.NewLogSink()
			c.Sim(fmt.Sprintf("alone%d", i), Opt{FS: fs, NumCPU: cpu}, func() { h.alone.outs, h.alone.err = h.j.run(log) })
			h.alone.log, h.alone.files = sorted(log.Msgs), h.j.mine(fs)
		}
	}
	victim := -1
	var plan *vsim.FaultPlan
	if c.Bool("faults", 1, 3) {
		victim = c.Int("victim", 0, n-1)
		if calls[victim].kind != "job" {
			victim = -1
		} else {
			p := []float64{0.01, 0.1, 0.5}[c.Int("rate", 0, 2)]
			plan = &vsim.FaultPlan{Kinds: map[string]float64{}, Max: c.Int("max", 1, 4), Prefix: "/work/" + calls[victim].j.dir}
			for _, k := range diskFaults {
				plan.Kinds[k] = p / 3
			}
		}
	}
	fs := all()
	var handler http.Handler
	addr := ""
	running, most := 0, 0
	serve := func(h *httpCall) { h.serve(handler) }
	var downloads []*httpCall
	vsim.HTTPServe = func(a string, hd http.Handler) error {
		addr, handler = a, hd
		var wg vsim.WaitGroup
		for _, h := range calls {
			h := h
			wg.Add(1)
			vsim.Go(func() {
				defer wg.Done()
				vsim.Sleep(h.start)
				if h.kind == "job" {
					running++
					if running > most {
						most = running
					}
				}
				serve(h)
				if h.kind == "job" {
					running--
				}
			})
		}
		wg.Wait()
		// the server goes on answering
		last := newCall("ping", "GET", "/api/v1/ping")
		serve(last)
		calls = append(calls, last)
		for _, h := range calls {
			if h.kind == "job" {
				for _, p := range fs.List() {
					if q := strings.TrimPrefix(p, "/work/"); strings.HasPrefix(q, h.j.dir) && len(downloads) < 2 {
						d := newCall("download", "GET", "/api/v1/files/"+q)
						if victim < 0 {
							serve(d)
							downloads = append(downloads, d)
						}
					}
				}
			}
		}
		return nil // stopped by its operator
	}
	outside := map[string]string{}
	for _, p := range fs.List() {
		if b, _ := fs.Get(p); !strings.HasPrefix(p, "/work/") {
			outside[p] = string(b)
		}
	}
	res := c.Sim("server", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu}, func() { rest.Serve(8080, mem) })
	if addr != ":8080" {
		c.Fail("address", "server asked to serve port 8080 listens on %q", addr)
	}
	if most > 1 {
		c.Nontrivial()
		c.Probe("jobs at the same time")
	}
	if res.Leaked > 0 {
		c.Fail("leak", "%d goroutines remain after all requests: %v", res.Leaked, res.LeakedAt)
	}
	used := map[string]bool{}
	for i, h := range calls {
		who := fmt.Sprintf("request %d (%s %s)", i, h.kind, h.path)
		body := h.w.text()
		if !h.done {
			c.Fail("no-answer", "%s is not answered", who)
		}
		if h.w.panicV != nil || h.w.status == 500 {
			c.Fail("panic", "%s panics: %v", who, h.w.panicV)
		}
		if h.w.overlap > 0 {
			c.Fail("torn-answer", "%s: %d writes to the answer overlap", who, h.w.overlap)
		}
		if h.w.late > 0 {
			c.Fail("late-answer", "%s: %d writes after the end of the answer", who, h.w.late)
		}
		if g := h.w.hdr.Get("Access-Control-Allow-Origin"); g != "*" {
			c.Fail("cors", "%s: Access-Control-Allow-Origin is %q", who, g)
		}
		if strings.Contains(body, "top secret") {
			c.Fail("disclosure", "%s is answered with a file outside the served directory", who)
		}
		c.Probe(h.kind)
		switch h.kind {
		case "ping":
			if h.w.status != 200 || strings.TrimSpace(body) != `{"message":"pong"}` {
				c.Fail("ping", "%s: status %d, %q", who, h.w.status, body)
			}
		case "options":
			if h.w.status != 204 || body != "" {
				c.Fail("preflight", "%s: status %d, %q", who, h.w.status, body)
			}
		case "index":
			if h.w.status != 200 || !strings.Contains(body, "<html") {
				c.Fail("index", "%s: status %d, %q", who, h.w.status, body)
			}
		case "escape":
			if h.w.status == 200 {
				c.Fail("disclosure", "%s: status 200, %q", who, body)
			}
		case "bad", "cut":
			var e struct{ Error string }
			if h.w.status != 400 || json.Unmarshal([]byte(body), &e) != nil || e.Error == "" {
				c.Fail("bad-job", "%s: malformed job %q is answered with status %d, %.300q", who, h.w.body, h.w.status, body)
			}
		case "forbidden":
			if !strings.Contains(body, "Error m") {
				c.Fail("disclosure", "%s: %q is answered with status %d, %.300q", who, h.w.body, h.w.status, body)
			}
		case "job":
			p30Job(c, h, who, i == victim && res.Hard() > 0, fs, sorted)
		}
	}
	for _, d := range downloads {
		q := strings.TrimPrefix(d.path, "/api/v1/files/")
		b, _ := fs.Get(q)
		if d.w.status != 200 || d.w.text() != string(b) {
			c.Fail("download", "%s: status %d, %d bytes, the file has %d", d.path, d.w.status, len(d.w.text()), len(b))
		}
		c.Probe("download")
	}
	for _, h := range calls {
		if h.j != nil {
			used[h.j.dir] = true
		}
		if h.own != "" {
			used[h.own[:2]] = true
		}
		if h.kind == "cut" {
			for p := range h.j.mine(fs) {
				if _, ok := h.j.files[strings.TrimPrefix(p, "/work/")]; !ok {
					c.Fail("files", "a job which was not received completely leaves %s", p)
				}
			}
		}
	}
	for _, a := range fs.Acc {
		if (a.Op == "open" || a.Op == "read") && strings.HasSuffix(a.Path, "secret.fits") {
			c.Fail("disclosure", "a job reads %s", a.Path)
		}
	}
	for _, p := range fs.List() {
		q := strings.TrimPrefix(p, "/work/")
		if b, _ := fs.Get(p); q == p && string(b) != outside[p] {
			c.Fail("outside", "a job writes %s", p)
		}
		if q != p && (len(q) < 2 || q[1] != '/' || !used[q[:2]]) {
			c.Fail("files", "file %s belongs to no job", p)
		}
	}
}

// p30Job compares a job done by the server with the job alone.
func p30Job(c *Case, h *httpCall, who string, faulty bool, fs *vsim.FS, sorted func([]string) []string) {
	a, j := &h.alone, h.j
	body := h.w.text()
	if h.w.status != 200 || !strings.HasPrefix(h.w.hdr.Get("Content-Type"), "text/plain") {
		c.Fail("answer", "%s: status %d, type %q, %.300q", who, h.w.status, h.w.hdr.Get("Content-Type"), body)
	}
	failed := strings.Contains(body, "Error making promises: ") || strings.Contains(body, "Error materializing promises: ")
	if h.w.goneAt < 0 {
		if !strings.HasPrefix(body, "Arguments:\n") {
			c.Fail("answer", "%s: answer begins %.100q", who, body)
		}
		var got, sent interface{}
		d := json.NewDecoder(strings.NewReader(body[len("Arguments:\n"):]))
		if err := d.Decode(&got); err != nil {
			c.Fail("answer", "%s: the arguments shown are not JSON: %v", who, err)
		}
		json.Unmarshal(h.w.body, &sent)
		x, _ := json.Marshal(got)
		y, _ := json.Marshal(sent)
		if !bytes.Equal(x, y) {
			c.Fail("answer", "%s: shows arguments %s for %s", who, x, y)
		}
	} else {
		c.Probe("client vanished")
	}
	if faulty {
		if failed {
			c.Probe("one job failed")
			return
		}
		if h.w.goneAt >= 0 {
			return // the error may have been said to nobody
		}
	} else if h.w.goneAt < 0 {
		if failed != (a.err != nil) {
			c.Fail("outcome", "%s (%s) alone ends with error %v, the answer ends %q", who, j.kind, a.err, lastOf(body, 200))
		}
		if a.err != nil {
			c.Probe("job error")
			return
		}
		// the answer is the log of this job and of no other
		got := sorted(h.w.msgs)
		want := map[string]int{}
		for _, m := range a.log {
			want[m]++
		}
		for _, m := range got {
			want[m]--
			if want[m] < 0 && !strings.HasPrefix(m, "Arguments:") {
				c.Fail("log", "%s: the answer has %q, not logged by the job alone", who, m)
			}
		}
		for m, k := range want {
			if k > 0 {
				c.Fail("log", "%s: the answer lacks %q", who, m)
			}
		}
	}
	if a.err != nil {
		return
	}
	files := j.mine(fs)
	for p, d := range a.files {
		if g, ok := files[p]; !ok || g != d && j.kind != "batches" && !(strings.Contains(j.kind, "frames") && j.mem == 1) {
			c.Fail("files", "%s leaves %s as %q, alone as %q", who, p, g, d)
		}
	}
	for p := range files {
		if _, ok := a.files[p]; !ok {
			c.Fail("files", "%s leaves %s, alone it does not", who, p)
		}
	}
}

func lastOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
