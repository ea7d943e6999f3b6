package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"strconv"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
	"golang.org/x/image/tiff"
)

// P09: reading image files under arbitrary delivery and read faults.
func init() {
	register(&Prop{ID: "P09", Quick: 60000, Rule: "Each case draws the number format, dimensions, scaling, exposure, compression and header length of 1-4 image files, how their bytes are delivered (whole, short reads, an adversarial stream), a truncation or read faults, and a schedule.", Run: runP09})
}

// inFile is one input image with the values a correct reader delivers.
type inFile struct {
	name  string
	bytes []byte
	naxis []int
	want  []float32
	expo  float64
	need  int // bytes a reader must see before it can know all pixels (0: unknown, compressed)
	tiff  bool
}

func expoText(r *R, c *Case, nm string) (string, float64) {
	v := []float64{30, 0.5, 1.25, 600, 0.00002, 3600, 12.5, 1000000, 0.001, 7, 123.456}[c.Int(nm+".expo", 0, 10)]
	switch c.Int(nm+".expofmt", 0, 4) {
	case 0:
		return strconv.FormatFloat(v, 'f', -1, 64), v
	case 1:
		return strconv.FormatFloat(v, 'f', 7, 64), v
	case 2:
		return strconv.FormatFloat(v, 'E', 6, 64), v
	case 3:
		s := strconv.FormatFloat(v, 'E', 6, 64)
		return string(bytes.Replace([]byte(s), []byte("E"), []byte("D"), 1)), v
	}
	return "+" + strconv.FormatFloat(v, 'f', -1, 64), v
}

func drawInFile(c *Case, nm string, allowTiff bool) *inFile {
	r := c.Rand(nm)
	f := &inFile{}
	w, h := c.Int(nm+".w", 1, 24), c.Int(nm+".h", 1, 24)
	switch c.Int(nm+".size", 0, 5) {
	case 4:
		w, h = w+100, h*4+10 // several buffers
		if c.Bool(nm+".large", 1, 30) {
			w, h = w*4+1, h*3+2
		}
	case 5:
		w, h = 64*(1+w%3), 32*(1+h%4) // multiples of the buffer length
	}
	n := w * h
	f.naxis = []int{w, h}
	if allowTiff && c.Bool(nm+".tiff", 1, 6) {
		f.tiff = true
		f.name = nm + c.PickS(nm+".text", ".tif", ".tiff", ".TIF")
		var img image.Image
		rc := image.Rect(0, 0, w, h)
		var planes [3][]float32
		for k := range planes {
			planes[k] = make([]float32, n)
		}
		kind := c.Int(nm+".tkind", 0, 3)
		switch kind {
		case 0, 2:
			g := image.NewGray16(rc)
			g8 := image.NewGray(rc)
			for i := 0; i < n; i++ {
				v := r.N(65536)
				if kind == 2 {
					v = r.N(256)
					g8.SetGray(i%w, i/w, color.Gray{uint8(v)})
				}
				g.SetGray16(i%w, i/w, color.Gray16{uint16(v)})
				planes[0][i] = float32(v)
			}
			img = g
			if kind == 2 {
				img = g8
			}
			f.want = planes[0]
		default:
			g := image.NewRGBA64(rc)
			g8 := image.NewRGBA(rc)
			for i := 0; i < n; i++ {
				var v [3]int
				for k := range v {
					v[k] = r.N(65536)
					if kind == 3 {
						v[k] = r.N(256)
					}
					planes[k][i] = float32(v[k])
				}
				g.SetRGBA64(i%w, i/w, color.RGBA64{uint16(v[0]), uint16(v[1]), uint16(v[2]), 65535})
				g8.SetRGBA(i%w, i/w, color.RGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), 255})
			}
			img = g
			if kind == 3 {
				img = g8
			}
			f.naxis = []int{w, h, 3}
			f.want = append(append(planes[0], planes[1]...), planes[2]...)
		}
		var b bytes.Buffer
		o := &tiff.Options{Compression: tiff.Uncompressed}
		if c.Bool(nm+".tdeflate", 1, 2) {
			o.Compression = tiff.Deflate
		}
		tiff.Encode(&b, img, o)
		f.bytes = b.Bytes()
		return f
	}
	if c.Bool(nm+".color", 1, 6) {
		f.naxis = append(f.naxis, 3)
		n *= 3
	}
	s := &fitsSpec{Bitpix: c.Pick(nm+".bitpix", 8, 16, 16, 32, 64, -32, -32, -64), Naxis: f.naxis}
	s.HeaderFiller = c.Pick(nm+".filler", 0, 0, 20, 33, 70)
	s.NoPad = c.Bool(nm+".nopad", 1, 5)
	if c.Bool(nm+".expoyes", 3, 4) {
		s.Exposure, f.expo = expoText(r, c, nm)
		if c.Bool(nm+".exptime", 1, 3) {
			s.ExpKey = "EXPTIME"
		}
	}
	switch c.Int(nm+".scale", 0, 4) {
	case 1:
		s.HasB, s.Bzero, s.Bscale = true, 32768, 1
	case 2:
		s.HasB, s.Bzero, s.Bscale, s.BscaleTx = true, 0.5, 0.25, "2.5E-01"
	case 3:
		s.HasB, s.Bzero, s.Bscale = true, 2147483648, 1
	case 4:
		s.HasB, s.Bzero, s.Bscale, s.BzeroTx, s.BscaleTx = true, -100, 2, "-1.0E2", "2."
	}
	for i := 0; i < n; i++ {
		var v float64
		switch s.Bitpix {
		case 8:
			v = float64(r.N(256))
		case 16:
			v = float64(r.N(65536) - 32768)
		case 32:
			v = float64(int32(r.U()))
		case 64:
			v = float64(int64(r.U()) >> uint(r.N(40)))
		default:
			v = float64(float32((r.F() - 0.3) * math.Pow(10, float64(r.N(8)-2))))
		}
		s.Raw = append(s.Raw, v)
	}
	f.want = s.want()
	f.bytes = s.bytes()
	f.name = nm + c.PickS(nm+".ext", ".fits", ".fit", ".FITS", ".fts")
	pad := 0
	if !s.NoPad {
		bp := s.Bitpix / 8
		if bp < 0 {
			bp = -bp
		}
		pad = (2880 - n*bp%2880) % 2880
	}
	f.need = len(f.bytes) - pad
	if c.Bool(nm+".gz", 1, 4) {
		f.name += c.PickS(nm+".gzext", ".gz", ".gzip", ".GZ")
		f.bytes = gz(f.bytes)
		f.need = 0
	}
	return f
}

// checkImage compares a loaded image with the file's content.
func (f *inFile) check(im *fits.Image) string {
	if len(im.Naxisn) != len(f.naxis) {
		return fmt.Sprintf("dimensions are %v, expected %v", im.Naxisn, f.naxis)
	}
	for i, n := range f.naxis {
		if int(im.Naxisn[i]) != n {
			return fmt.Sprintf("dimensions are %v, expected %v", im.Naxisn, f.naxis)
		}
	}
	if int(im.Pixels) != len(f.want) || len(im.Data) != len(f.want) {
		return fmt.Sprintf("%d pixels with %d values, expected %d", im.Pixels, len(im.Data), len(f.want))
	}
	if i := nearAll(im.Data, f.want, 2e-6, 1e-30); i >= 0 {
		return fmt.Sprintf("value %d is %s, expected %s", i, at(im.Data, i), at(f.want, i))
	}
	if !near(im.Exposure, float32(f.expo), 1e-6, 0) {
		return fmt.Sprintf("exposure is %v, expected %v", im.Exposure, f.expo)
	}
	if im.Bzero != 0 || im.Bscale != 1 {
		return fmt.Sprintf("zero offset %v and scale %v remain after they were applied", im.Bzero, im.Bscale)
	}
	mn, mx, sum := f.want[0], f.want[0], 0.0
	for _, v := range f.want {
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
		sum += float64(v)
	}
	mean := float32(sum / float64(len(f.want)))
	tol := 1e-5 * math.Max(math.Abs(float64(mn)), math.Abs(float64(mx)))
	if im.Stats == nil || !near(im.Stats.Min(), mn, 1e-6, 0) || !near(im.Stats.Max(), mx, 1e-6, 0) || !near(im.Stats.Mean(), mean, 1e-5, tol) {
		return fmt.Sprintf("statistics %v, expected min %v max %v mean %v", im.Stats, mn, mx, mean)
	}
	return ""
}

// advReader delivers bytes in chunks the io.Reader contract allows.
type advReader struct {
	b      []byte
	r      *R
	mode   int
	failAt int // -1: none
	off    int
}

var errAdv = fmt.Errorf("simulated stream failure")

func (a *advReader) Read(p []byte) (int, error) {
	vsim.Point()
	if len(p) == 0 {
		return 0, nil
	}
	if a.failAt >= 0 && a.off >= a.failAt {
		return 0, errAdv
	}
	if a.off >= len(a.b) {
		return 0, io.EOF
	}
	n := len(p)
	switch a.mode {
	case 0:
		n = 1 + a.r.N(len(p))
	case 1:
		n = 1 + a.r.N(7)
	case 2:
		if a.r.N(6) == 0 {
			return 0, nil
		}
		n = 1 + a.r.N(len(p))
	case 3:
		n = len(p) - a.r.N(9)
	}
	if n > len(p) {
		n = len(p)
	}
	if n < 1 {
		n = 1
	}
	if n > len(a.b)-a.off {
		n = len(a.b) - a.off
	}
	if a.failAt >= 0 && n > a.failAt-a.off {
		n = a.failAt - a.off
	}
	copy(p, a.b[a.off:a.off+n])
	a.off += n
	if a.failAt >= 0 && a.off == a.failAt && a.r.N(2) == 0 {
		return n, errAdv
	}
	if a.off == len(a.b) && a.r.N(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func runP09(c *Case) {
	if c.Bool("stream", 1, 4) {
		p09stream(c)
		return
	}
	n := c.Int("files", 1, 4)
	fs := vsim.NewFS()
	var in []*inFile
	cut := make([]int, n)
	flipped := make([]bool, n)
	mode := c.Int("mode", 0, 3) // 0 short reads, 1 hard faults, 2 truncation, 3 all
	for i := 0; i < n; i++ {
		f := drawInFile(c, fmt.Sprintf("f%d", i), true)
		cut[i] = -1
		b := f.bytes
		if mode >= 2 && c.Bool(fmt.Sprintf("cut%d", i), 1, 2) {
			cut[i] = c.Rand(fmt.Sprintf("cutat%d", i)).N(len(b))
			if f.need > 0 && c.Bool(fmt.Sprintf("cutend%d", i), 1, 3) {
				cut[i] = f.need - 2 + c.Int(fmt.Sprintf("cutoff%d", i), 0, 4)
				if cut[i] >= len(b) {
					cut[i] = len(b) - 1
				}
			}
			b = b[:cut[i]]
		}
		if f.need == 0 && !f.tiff && len(b) > 0 && c.Bool(fmt.Sprintf("flip%d", i), 1, 3) {
			// a damaged compressed file: the checksum tells
			b = append([]byte(nil), b...)
			k := c.Rand(fmt.Sprintf("flipat%d", i)).N(len(b) * 8)
			b[k/8] ^= 1 << uint(k%8)
			flipped[i] = true
		}
		fs.Put(f.name, b)
		in = append(in, f)
	}
	plan := &vsim.FaultPlan{Kinds: map[string]float64{"read-short": []float64{0, 0.2, 0.6}[c.Int("short", 0, 2)]}, Max: 2}
	if mode == 1 || mode == 3 {
		k := c.PickS("fault", "read-eio", "open-eio", "open-emfile", "open-enoent", "open-eacces")
		plan.Kinds[k] = 0.2
	}
	got := make([]*fits.Image, n)
	errs := make([]error, n)
	r := c.Sim("load", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 4)}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		var ps []ops.Promise
		for i := range in {
			i := i
			p, err := ops.NewOpLoad(i+5, in[i].name).MakePromises(nil, ctx)
			if err != nil || len(p) != 1 {
				errs[i] = fmt.Errorf("no promise: %v", err)
				continue
			}
			ps = append(ps, func() (*fits.Image, error) {
				got[i], errs[i] = p[0]()
				return got[i], nil
			})
		}
		ops.MaterializeAll(ps, ctx.MaxThreads, false)
	})
	hard := map[string]int{}
	for _, f := range r.Faults {
		if f.Kind != "read-short" {
			hard[f.Path]++
		}
	}
	for i, f := range in {
		broken := cut[i] >= 0 && (f.need == 0 || cut[i] < f.need)
		if errs[i] == nil {
			if got[i] == nil {
				c.Fail("no-image", "%s: neither image nor error", f.name)
			}
			if broken && f.need > 0 {
				c.Fail("truncated-accepted", "%s was cut to %d of %d bytes and was loaded without error", f.name, cut[i], len(f.bytes))
			}
			if msg := f.check(got[i]); msg != "" {
				c.Fail("wrong-data", "%s (%d faults): %s", f.name, len(r.Faults), msg)
			}
			if got[i].ID != i+5 {
				c.Fail("wrong-data", "%s: image number %d, expected %d", f.name, got[i].ID, i+5)
			}
			continue
		}
		if flipped[i] {
			c.Probe("damaged gzip reported")
			continue
		}
		if !broken && hard["/work/"+f.name] == 0 && cut[i] < 0 {
			c.Fail("spurious-error", "%s is intact and was read without faults, but loading failed: %v", f.name, errs[i])
		}
		if hard["/work/"+f.name] > 0 {
			c.Probe("read fault reported")
		}
		if broken {
			c.Probe("truncation reported")
		}
	}
	c.Nontrivial()
}

func p09stream(c *Case) {
	f := drawInFile(c, "s", false)
	b := f.bytes
	if f.need == 0 {
		b, _ = gunzip(b)
	}
	failAt, cut := -1, -1
	switch c.Int("streamfault", 0, 3) {
	case 1:
		failAt = c.Rand("failat").N(len(b) + 1)
	case 2:
		cut = c.Rand("cutat").N(len(b))
		b = b[:cut]
	}
	rd := &advReader{b: b, r: c.Rand("chunks"), mode: c.Int("chunkmode", 0, 4), failAt: failAt}
	var im *fits.Image
	var err error
	c.Sim("read", Opt{FS: vsim.NewFS(), StepCap: 3000000}, func() {
		im = fits.NewImage()
		err = im.Read(rd, true, vsim.NewLogSink())
	})
	if err == nil {
		if msg := f.check(im); msg != "" {
			c.Fail("wrong-data", "stream (failure at %d, cut at %d of %d): %s", failAt, cut, len(f.bytes), msg)
		}
	} else if failAt < 0 && cut < 0 {
		c.Fail("spurious-error", "an intact stream could not be read: %v", err)
	}
	c.Nontrivial()
}
