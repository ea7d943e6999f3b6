package vsim

import (
	"context"
	"crypto/tls"
	"errors"
	"io/fs"
	"log"
	"net"
	"net/http"
	"path"
	"strings"
	"syscall"
	"time"
)

// HTTPServe is the simulated network: it is handed the server's handler and returns when the server stops.
var HTTPServe func(addr string, h http.Handler) error

// ListenAndServe replaces http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	if HTTPServe == nil {
		return errors.New("no simulated network")
	}
	return HTTPServe(addr, h)
}

// RunEngine replaces the Run method of the router.
func RunEngine(h http.Handler, addr ...string) error { return ListenAndServe(addr[0], h) }

// NetListen replaces net.Listen; connections are served from the call to Serve on.
func NetListen(network, addr string) (net.Listener, error) { return listener(addr), nil }

type listener string

func (l listener) Accept() (net.Conn, error) { return nil, errors.New("no simulated connections") }
func (l listener) Close() error              { return nil }
func (l listener) Addr() net.Addr            { return l }
func (l listener) Network() string           { return "tcp" }
func (l listener) String() string            { return string(l) }

// HTTPServeOn replaces http.Serve.
func HTTPServeOn(l net.Listener, h http.Handler) error { return ListenAndServe(l.Addr().String(), h) }

// RunListenerEngine replaces the RunListener method of the router.
func RunListenerEngine(h http.Handler, l net.Listener) error { return HTTPServeOn(l, h) }

// HTTPServer replaces http.Server.
type HTTPServer struct {
	Addr                                                      string
	Handler                                                   http.Handler
	TLSConfig                                                 *tls.Config
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
	ConnState                                                 func(net.Conn, http.ConnState)
	ErrorLog                                                  *log.Logger
	BaseContext                                               func(net.Listener) context.Context
	ConnContext                                               func(context.Context, net.Conn) context.Context
}

func (s *HTTPServer) ListenAndServe() error              { return ListenAndServe(s.Addr, s.Handler) }
func (s *HTTPServer) Serve(l net.Listener) error         { return HTTPServeOn(l, s.Handler) }
func (s *HTTPServer) Shutdown(ctx context.Context) error { return nil }
func (s *HTTPServer) Close() error                       { return nil }
func (s *HTTPServer) SetKeepAlivesEnabled(v bool)        {}
func (s *HTTPServer) RegisterOnShutdown(f func())        {}

// HTTPDir replaces http.Dir, on the simulated disk.
type HTTPDir string

func (d HTTPDir) Open(name string) (http.File, error) {
	if strings.ContainsRune(name, 0) {
		return nil, errors.New("http: invalid or unsafe file path")
	}
	dir := string(d)
	if dir == "" {
		dir = "."
	}
	f, err := Open(path.Join(dir, path.Clean("/"+name)))
	if err != nil {
		return nil, err
	}
	return httpFile{f}, nil
}

type httpFile struct{ *File }

func (f httpFile) Stat() (fs.FileInfo, error)               { return f.File.Stat() }
func (f httpFile) Readdir(count int) ([]fs.FileInfo, error) { return f.File.Readdir(count) }

// Privilege calls concern the simulated process only.
func privCall(op, arg string, fn func(d *FS) syscall.Errno) error {
	needSim()
	var e syscall.Errno
	if dead() {
		return syscall.EPERM
	}
	call(opFS, func(t *task) bool {
		k := theK
		switch kind, _ := k.fault(op, arg, "crash", op+"-eperm"); kind {
		case "crash":
			k.crashNow = true
			return true
		case "":
			e = fn(k.cfg.FS)
		default:
			e = syscall.EPERM
		}
		k.acc(t, op, arg, e, 0)
		return true
	})
	if e != 0 {
		return e
	}
	return nil
}

func Chroot(p string) error {
	needSim()
	q := theK.cfg.FS.at(p)
	return privCall("chroot", q, func(d *FS) syscall.Errno {
		if d.Uid != 0 {
			return syscall.EPERM
		}
		n := d.nodes[q]
		if n == nil {
			return syscall.ENOENT
		}
		if !n.dir {
			return syscall.ENOTDIR
		}
		d.Root = q
		return 0
	})
}

func setID(op string, id *int, to int) error {
	return privCall(op, itoa(to), func(d *FS) syscall.Errno {
		if to < 0 {
			return syscall.EINVAL
		}
		if d.Uid != 0 && *id != to {
			return syscall.EPERM
		}
		*id = to
		return 0
	})
}
func ids() *FS                    { needSim(); return theK.cfg.FS }
func Setuid(uid int) error        { return setID("setuid", &ids().Uid, uid) }
func Setgid(gid int) error        { return setID("setgid", &ids().Gid, gid) }
func Setreuid(r, e int) error     { return setID("setuid", &ids().Uid, e) }
func Setregid(r, e int) error     { return setID("setgid", &ids().Gid, e) }
func Setresuid(r, e, s int) error { return setID("setuid", &ids().Uid, e) }
func Setresgid(r, e, s int) error { return setID("setgid", &ids().Gid, e) }
func Setgroups(g []int) error {
	return privCall("setgroups", "", func(d *FS) syscall.Errno {
		if d.Uid != 0 {
			return syscall.EPERM
		}
		return 0
	})
}
func Getuid() int  { return ids().Uid }
func Geteuid() int { return ids().Uid }
func Getgid() int  { return ids().Gid }
func Getegid() int { return ids().Gid }
