//go:build cli

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P31: a server confined to a directory and a user serves nothing before it is, and nothing else then.
func init() {
	register(&Prop{ID: "P31", Quick: 700, Rule: "Each case draws the directory and the user to serve from, whether the system refuses a step, requests for files inside and outside, jobs, thread count and schedule. Non-trivial: a confined server did a job.", Run: runP31})
}

func runP31(c *Case) {
	r := c.Rand("p31")
	dir := c.PickS("dir", "", "/srv/jail", "/srv/jail", "/work", "/work/jail", "jail", "jail/in", "../srv/jail", ".", "/", "/srv/jail/", "missing", "/srv/missing", "file.txt", "/srv/file.txt")
	uid := c.Pick("uid", -1, -1, 0, 1000, 65534)
	port := c.Pick("port", 8080, 80, 9999)
	refuse := c.Bool("refuse", 1, 3)
	busy := c.Bool("busy", 1, 8)
	mem := c.Pick("mem", 2000, 2000, 1)
	cpu := c.Int("cpu", 1, 4)
	n := c.Int("n", 1, 4)

	fs := vsim.NewFS()
	secret := fitsF32(8, 8, randData(r, 64, 0, 1), "1.0")
	for _, p := range []string{"/secret.fits", "/etc/secret.fits", "/srv/secret.fits", "/work/secret.fits", "/secretdir/secret.fits", "/srv/jailsecret/secret.fits", "/srv/file.txt", "/work/file.txt", "/srv/jail/own.fits", "/work/jail/own.fits", "/work/jail/in/own.fits"} {
		fs.Put(p, secret)
	}
	root := fs.Abs(dir)
	if dir == "" {
		root = "/work"
	}
	isDir := !strings.HasSuffix(dir, "missing") && !strings.HasSuffix(dir, "file.txt")
	inside := func(p string) bool { return root == "/" || p == root || strings.HasPrefix(p, root+"/") }
	fs.Cwd = root
	var calls []*httpCall
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("req%d", i)
		kind := c.PickS(nm+".kind", "job", "job", "escape", "abs", "dark", "ping")
		h := newCall(kind, "POST", "/api/v1/job")
		h.start = time.Duration(c.Int(nm+".start", 0, 2)) * 30 * time.Millisecond
		secretPath := func() string {
			return c.PickS(nm+".path", "/secret.fits", "/etc/secret.fits", "/srv/secret.fits", "/work/secret.fits", "../secret.fits", "../../secret.fits", "../../../secret.fits", "/../secret.fits", "/secretdir/secret.fits", "../jailsecret/secret.fits")
		}
		switch kind {
		case "job":
			h.j = drawJob(c, nm, string(rune('a'+i))+"/", true)
			h.j.mem = mem
			h.w.body, _ = json.Marshal(h.j.mk())
			if isDir {
				h.j.put(fs)
			}
		case "abs": // saves to a path of its own
			in := fmt.Sprintf("in%d.fits", i)
			if isDir {
				fs.Put(in, secret)
			}
			h.w.body = []byte(fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":%q},{"type":"save","filePattern":"%sout%d.fits"}]}`, in, c.PickS(nm+".to", "/", "/../", "../", "../../", ""), i))
		case "dark":
			in := fmt.Sprintf("in%d.fits", i)
			if isDir {
				fs.Put(in, secret)
			}
			h.w.body = []byte(fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":%q},{"type":"calibrate",%q:%q},{"type":"save","filePattern":"stolen%d.fits"}]}`, in, c.PickS(nm+".as", "dark", "flat"), secretPath(), i))
		case "escape":
			h.method, h.path = "GET", "/api/v1/files/"+strings.ReplaceAll(secretPath(), "..", c.PickS(nm+".dots", "..", "%2e%2e", "..%2f.."))
		case "ping":
			h.method, h.path = "GET", "/api/v1/ping"
		}
		calls = append(calls, h)
	}
	own := newCall("own", "GET", "/api/v1/files/own.fits")
	calls = append(calls, own)
	fs.Cwd = "/work"

	// each job alone, in the directory
	for i, h := range calls {
		if h.j != nil {
			f, log := vsim.NewFS(), vsim.NewLogSink()
			h.j.put(f)
			c.Sim(fmt.Sprintf("alone%d", i), Opt{FS: f, NumCPU: cpu}, func() { h.alone.outs, h.alone.err = h.j.run(log) })
			h.alone.files = h.j.mine(f)
			h.alone.log = noProgress(log.Msgs)
			sort.Strings(h.alone.log)
		}
	}
	args := []string{}
	add := func(name, v string) {
		if c.Bool("eq."+name, 1, 2) {
			args = append(args, "-"+name+"="+v)
		} else {
			args = append(args, "-"+name, v)
		}
	}
	if uid >= 0 {
		add("setuid", fmt.Sprint(uid))
	}
	if dir != "" {
		add("chroot", dir)
	}
	if port != 8080 {
		add("port", fmt.Sprint(port))
	}
	if c.Bool("nolog", 1, 2) {
		add("log", "")
	}
	add("stMemory", fmt.Sprint(mem))
	var plan *vsim.FaultPlan
	if refuse {
		plan = &vsim.FaultPlan{Kinds: map[string]float64{"chroot-eperm": 0.4, "chdir-eio": 0.4, "setuid-eperm": 0.4}, Max: 1}
	}
	opened, addr, before := false, "", map[string]bool{}
	at := 0
	st := func() string { return fmt.Sprintf("root %s, working directory %s, user %d", fs.Root, fs.Cwd, fs.Uid) }
	first := ""
	vsim.HTTPServe = func(a string, hd http.Handler) error {
		opened, addr, at, first = true, a, len(fs.Acc), st()
		for _, p := range fs.List() {
			before[p] = true
		}
		if busy {
			return errors.New("listen tcp " + a + ": bind: address already in use")
		}
		var wg vsim.WaitGroup
		for _, h := range calls {
			h := h
			wg.Add(1)
			vsim.Go(func() {
				defer wg.Done()
				vsim.Sleep(h.start)
				h.serve(hd)
			})
		}
		wg.Wait()
		return nil
	}
	res, code := c.cliRun("serve", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu}, append(args, "serve")...)
	vsim.HTTPServe = nil
	refused := res.Hard() > 0
	if refused || dir != "" && !isDir {
		if opened {
			c.Fail("unconfined", "confinement to %q as user %d failed (%v), yet the server serves with %s", dir, uid, res.Faults, first)
		}
		if code == 0 {
			c.Fail("exit-status", "confinement to %q as user %d failed (%v), yet the exit status is 0", dir, uid, res.Faults)
		}
		c.Probe("refused")
		return
	}
	if !opened {
		c.Fail("no-service", "the server confined to %q as user %d does not serve: exit status %d, %s %s", dir, uid, code, res.Outcome, res.Detail)
	}
	wantRoot, wantUid := "", 0
	if dir != "" {
		wantRoot = root
	}
	if uid > 0 {
		wantUid = uid
	}
	want := fmt.Sprintf("root %s, working directory %s, user %d", wantRoot, root, wantUid)
	if first != want {
		c.Fail("unconfined", "asked to serve from %q as user %d the server serves with %s", dir, uid, first)
	}
	if st() != want {
		c.Fail("unconfined", "server confined to %q as user %d ends with %s", dir, uid, st())
	}
	if addr != fmt.Sprintf(":%d", port) {
		c.Fail("address", "server asked to serve port %d listens on %q", port, addr)
	}
	if busy {
		if code == 0 {
			c.Fail("exit-status", "the port is taken, yet the exit status is 0")
		}
		c.Probe("port taken")
		return
	}
	if code != 0 {
		c.Fail("exit-status", "the server was stopped by its operator, exit status %d", code)
	}
	if dir != "" {
		for _, a := range fs.Acc[at:] {
			if strings.HasPrefix(a.Path, "/") && !inside(a.Path) && a.Op != "write" && a.Op != "close" {
				c.Fail("escape", "server confined to %s does %s of %s", root, a.Op, a.Path)
			}
		}
		for _, p := range fs.List() {
			if !before[p] && !inside(p) {
				c.Fail("escape", "server confined to %s leaves %s", root, p)
			}
		}
	}
	for i, h := range calls {
		who := fmt.Sprintf("request %d (%s %s %.200s) to the server in %q", i, h.kind, h.path, h.w.body, dir)
		body := h.w.text()
		if !h.done || h.w.panicV != nil || h.w.status == 500 {
			c.Fail("no-answer", "%s: done %v, panic %v, status %d", who, h.done, h.w.panicV, h.w.status)
		}
		failed := strings.Contains(body, "Error making promises: ") || strings.Contains(body, "Error materializing promises: ")
		c.Probe(h.kind)
		switch h.kind {
		case "ping":
			if h.w.status != 200 {
				c.Fail("ping", "%s: status %d", who, h.w.status)
			}
		case "own":
			if _, ok := fs.Get(path.Join(root, "own.fits")); ok != (h.w.status == 200) || ok && body != string(secret) {
				c.Fail("download", "%s: status %d, %d bytes", who, h.w.status, len(body))
			}
		case "abs":
			to := strings.SplitN(strings.SplitN(string(h.w.body), `"filePattern":"`, 2)[1], `"`, 2)[0]
			_, ok := fs.Get(path.Join(root, path.Base(to)))
			if leads := to != path.Base(to); leads && !failed {
				c.Fail("abs", "%s: no error for a path that leads outside: %.300q", who, body)
			} else if leads && ok {
				c.Fail("abs", "%s: leaves %s", who, path.Base(to))
			} else if !leads && (!ok || failed) {
				c.Fail("abs", "%s: %s is not saved: %.300q", who, to, body)
			}
		case "dark":
			if dir != "" {
				f := path.Clean("/" + strings.SplitN(strings.SplitN(string(h.w.body), `"calibrate",`, 2)[1], `"`, 5)[3])
				if _, ok := fs.Get(path.Join(root, f)); !ok && !failed {
					c.Fail("disclosure", "%s: %.300q", who, body)
				}
			}
		case "escape":
			if strings.Contains(body, string(secret)) && dir != "" {
				ok := false
				for _, p := range fs.List() {
					ok = ok || inside(p) && strings.HasSuffix(p, "secret.fits")
				}
				if !ok {
					c.Fail("disclosure", "%s: is answered with a file from outside", who)
				}
			}
		case "job":
			if failed != (h.alone.err != nil) {
				c.Fail("outcome", "%s (%s) alone ends with error %v, the answer ends %q", who, h.j.kind, h.alone.err, lastOf(body, 200))
			}
			if failed {
				break
			}
			if wantRoot != "" && wantUid > 0 {
				c.Nontrivial()
			}
			for p, d := range h.alone.files {
				q := path.Join(root, strings.TrimPrefix(p, "/work/"))
				b, ok := fs.Get(q)
				if !ok {
					c.Fail("files", "%s does not leave %s", who, q)
				} else if g := h.j.fileDigest(p, b); g != d && h.j.kind != "batches" && !(strings.Contains(h.j.kind, "frames") && mem == 1) {
					c.Fail("files", "%s leaves %s as %q, alone as %q", who, q, g, d)
				}
			}
		}
	}
}
