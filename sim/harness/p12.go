package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P12: saving as FITS and loading again yields the same image, any number of times.
func init() {
	register(&Prop{ID: "P12", Quick: 30000, Rule: "Each case draws 1-3 image files with header cards of all kinds in free and fixed format, and a history of 1-6 jobs, each loading one or several files, applying at most one step and saving under new or existing names, plain or compressed; reads may come in short pieces; the schedule is drawn. After each job all files are decoded independently and compared with a model of the images and headers. Non-trivial: at least one header card besides the mandatory ones.", Run: runP12})
}

// hdrVal is a header value as a reader understands it.
type hdrVal struct {
	kind byte // b, n, s
	b    bool
	n    float32
	s    string
}

// hdrImg models an image file.
type hdrImg struct {
	naxis []int32
	data  []float32
	expo  float32
	keys  map[string]hdrVal
	cards []string
}

func (v hdrVal) String() string {
	switch v.kind {
	case 'b':
		return fmt.Sprint(v.b)
	case 'n':
		return fmt.Sprint(v.n)
	}
	return fmt.Sprintf("%q", v.s)
}

var hdrWords = []string{"M", "31", "NGC", "7000", "O'Brien", "it's", "&", "a&b", "/", "=", "''", "x/y", "North America", "(10%)", "[s]", "#", "\"quoted\"", "Ha", "-10.5", "T", "\\", "%d", "END", "!", "~", "CONTINUE", "'", "&'"}

// drawHeader draws header cards and the values they mean.
func drawHeader(c *Case, nm string) (cards []string, keys map[string]hdrVal) {
	r := c.Rand(nm)
	keys = map[string]hdrVal{}
	pool := []string{"OBJECT", "TELESCOP", "INSTRUME", "DATE-OBS", "GAIN", "CCD-TEMP", "FILTER", "XPIXSZ", "FLIPPED", "A_B-9", "K", "12345678", "EXTEND", "JD", "PROGRAM", "CREATOR", "SWCREATE", "BAYERPAT", "RA", "DEC", "NAXIS9", "BLANK", "ENDING", "COMMENT2", "HISTORYX", "-X", "_"}
	for k := c.Int(nm+".cards", 0, 14); k > 0; k-- {
		key := pool[r.N(len(pool))]
		if r.N(3) == 0 {
			key = fmt.Sprintf("KEY%d", r.N(200))
		}
		if _, ok := keys[key]; ok {
			continue
		}
		comm := ""
		switch r.N(4) {
		case 0:
			comm = " / a comment"
		case 1:
			comm = "/[deg] it's 'quoted' = 5 / x"
		case 2:
			comm = " /"
		}
		put := func(text string, v hdrVal) {
			eq := "= "
			if r.N(3) == 0 {
				text = fmt.Sprintf("%20s", text)
			}
			l := fmt.Sprintf("%-8s%s%s", key, eq, text)
			if len(l)+len(comm) <= 80 {
				l += comm
			}
			cards = append(cards, l)
			keys[key] = v
		}
		kind := r.N(12)
		if key == "PROGRAM" || key == "CREATOR" {
			kind = 8 // text by convention
		}
		switch kind {
		case 0:
			put("T", hdrVal{kind: 'b', b: true})
		case 1:
			put("F", hdrVal{kind: 'b'})
		case 2, 3:
			v := []int64{0, 1, -1, 42, 2147483647, -2147483648, 2147483648, -9000000000, 16777217, 100000000000, int64(r.N(100000)) - 50000}[r.N(11)]
			t := strconv.FormatInt(v, 10)
			if v >= 0 && r.N(4) == 0 {
				t = "+" + t
			}
			if v > 0 && t[0] != 43 && r.N(6) == 0 {
				t = "00" + t
			}
			n := float32(v)
			put(t, hdrVal{kind: 'n', n: n})
		case 4, 5, 6:
			v := []float64{0, 0.5, -0.25, 1e10, 1.5e-20, -3.25e30, 123456.75, 2459000.5, 1e-7, 3, 100000, 1000000, 21, 1e20, 1e21, (r.F() - 0.5) * 1000}[r.N(16)]
			var t string
			switch r.N(6) {
			case 0:
				t = strconv.FormatFloat(v, 'E', 9, 64)
			case 1:
				t = strings.Replace(strconv.FormatFloat(v, 'E', 9, 64), "E", "D", 1)
			case 2:
				t = strconv.FormatFloat(v, 'e', 7, 64)
			case 3:
				t = strings.Replace(strconv.FormatFloat(v, 'E', -1, 64), "E+", "E", 1)
			case 4:
				if math.Abs(v) < 1e12 && (v == 0 || math.Abs(v) > 1e-12) {
					t = strconv.FormatFloat(v, 'f', 10, 64)
					break
				}
				fallthrough
			default:
				t = strconv.FormatFloat(v, 'G', -1, 64)
			}
			if strings.HasPrefix(t, "0.") && r.N(3) == 0 {
				t = t[1:]
			}
			p, err := strconv.ParseFloat(strings.Replace(t, "D", "E", 1), 64)
			if err != nil {
				c.Fail("harness", "number %q: %v", t, err)
			}
			put(t, hdrVal{kind: 'n', n: float32(p)})
		case 7:
			t := []string{"2020-08-01T22:13:45", "2020-08-01T22:13:45.125", "20200801T221345", "1999-12-31T00:00:00.5"}[r.N(4)]
			put(t, hdrVal{kind: 's', s: t})
		default:
			s := ""
			for k := r.N(4); k > 0; k-- {
				s += hdrWords[r.N(len(hdrWords))] + []string{" ", "", "  "}[r.N(3)]
			}
			if kind == 11 { // long
				n := r.N(260)
				for len(s) < n {
					s += hdrWords[r.N(len(hdrWords))] + " "
				}
				if r.N(2) == 0 { // lengths around the split points
					n = []int{17, 18, 19, 66, 67, 68, 83, 84, 85, 149, 150, 151}[r.N(12)]
					for len(s) < n {
						s += string("ab'&c "[r.N(6)])
					}
					s = s[:n]
				}
			}
			if r.N(8) == 0 {
				s = strings.Repeat("'", r.N(40))
			}
			s = strings.TrimRight(s, " ")
			esc := strings.ReplaceAll(s, "'", "''")
			v := hdrVal{kind: 's', s: s}
			if len(esc) <= 66 && (len(esc) < 30 || r.N(3) > 0) {
				if r.N(2) == 0 && len(esc) < 8 {
					esc += strings.Repeat(" ", 8-len(esc))
				}
				put("'"+esc+"'", v)
				break
			}
			// long string convention: any split that keeps '' pairs together
			first := true
			for rest := esc; first || rest != ""; first = false {
				n := 20 + r.N(47)
				if n > len(rest) {
					n = len(rest)
				}
				q := 0
				for q < n && rest[n-1-q] == '\'' {
					q++
				}
				if n < len(rest) && q&1 != 0 {
					n--
				}
				part := rest[:n]
				rest = rest[n:]
				if rest != "" {
					part += "&"
				}
				if first {
					cards = append(cards, fmt.Sprintf("%-8s= '%s'", key, part))
				} else {
					cards = append(cards, fmt.Sprintf("CONTINUE  '%s'", part))
				}
			}
			keys[key] = v
		}
		switch r.N(9) {
		case 0:
			cards = append(cards, "COMMENT  this = 'is' a comment / x")
		case 1:
			cards = append(cards, "HISTORY step 5 = done")
		case 2:
			cards = append(cards, "")
		}
	}
	for _, l := range cards {
		if len(l) > 80 {
			c.Fail("harness", "card %q is too long", l)
		}
	}
	return
}

// checkHdrFile compares a saved file, decoded independently, with the model.
func checkHdrFile(b []byte, gzd bool, m *hdrImg) string {
	if gzd {
		u, err := gunzip(b)
		if err != nil {
			return "gzip: " + err.Error()
		}
		b = u
	}
	f, err := decodeFits(b)
	if err != nil {
		return err.Error()
	}
	if f.Extra != 0 {
		return fmt.Sprintf("%d bytes after the padded data unit", f.Extra)
	}
	if i32s(m.naxis) != fmt.Sprint(f.Naxis) {
		return fmt.Sprintf("dimensions %v, expected %v", f.Naxis, m.naxis)
	}
	for i, v := range m.data {
		if f.Data[i] != v {
			return fmt.Sprintf("value %d is %v, expected %v", i, f.Data[i], v)
		}
	}
	want := map[string]hdrVal{}
	for k, v := range m.keys {
		want[k] = v
	}
	if m.expo != 0 {
		want["EXPOSURE"] = hdrVal{kind: 'n', n: m.expo}
	}
	want["PROGRAM"] = hdrVal{kind: 's', s: "nightlight"}
	for i, k := range f.Order {
		if i == 0 && k != "SIMPLE" || i == 1 && k != "BITPIX" || i == 2 && k != "NAXIS" || i >= 3 && i < 3+len(m.naxis) && k != fmt.Sprint("NAXIS", i-2) {
			return fmt.Sprintf("mandatory keywords are out of order: %v", f.Order)
		}
		if len(f.Keys[k]) != 1 {
			return fmt.Sprintf("keyword %s occurs %d times", k, len(f.Keys[k]))
		}
		if i < 3+len(m.naxis) || k == "BZERO" || k == "BSCALE" {
			continue
		}
		t := f.Keys[k][0]
		v, ok := want[k]
		if !ok {
			return fmt.Sprintf("unexpected keyword %s with value %q", k, t)
		}
		delete(want, k)
		bad := false
		switch v.kind {
		case 'b':
			bad = t != map[bool]string{true: "T", false: "F"}[v.b]
		case 'n':
			p, err := strconv.ParseFloat(t, 64)
			bad = err != nil || float32(p) != v.n
		default:
			bad = t != v.s
		}
		if bad {
			return fmt.Sprintf("keyword %s is %q, expected %v", k, t, v)
		}
	}
	for k, v := range want {
		return fmt.Sprintf("keyword %s with value %v is missing", k, v)
	}
	return ""
}

// checkHdrImage compares a loaded image with the model of its file.
func checkHdrImage(f *fits.Image, m *hdrImg) string {
	if i32s(f.Naxisn) != i32s(m.naxis) || int(f.Pixels) != len(m.data) || len(f.Data) != len(m.data) {
		return fmt.Sprintf("dimensions %v with %d of %d values, expected %v", f.Naxisn, len(f.Data), f.Pixels, m.naxis)
	}
	for i, v := range m.data {
		if f.Data[i] != v && !(isNaN(v) && isNaN(f.Data[i])) {
			return fmt.Sprintf("value %d is %v, expected %v", i, f.Data[i], v)
		}
	}
	if f.Exposure != m.expo {
		return fmt.Sprintf("exposure %v, expected %v", f.Exposure, m.expo)
	}
	n := 0
	for k, v := range m.keys {
		ok := false
		switch v.kind {
		case 'b':
			var g bool
			g, ok = f.Header.Bools[k]
			ok = ok && g == v.b
		case 'n':
			if g, have := f.Header.Ints[k]; have {
				ok = float32(g) == v.n
			} else if g, have := f.Header.Floats[k]; have {
				ok = g == v.n
			}
		default:
			if g, have := f.Header.Strings[k]; have {
				ok = strings.TrimRight(g, " ") == v.s
			} else {
				ok = strings.TrimRight(f.Header.Dates[k], " ") == v.s
			}
		}
		if !ok {
			h := f.Header
			return fmt.Sprintf("keyword %s should be %v; header has %v %v %v %q %v", k, v, h.Bools, h.Ints, h.Floats, h.Strings, h.Dates)
		}
		n++
	}
	h := f.Header
	if g := len(h.Bools) + len(h.Ints) + len(h.Floats) + len(h.Strings) + len(h.Dates); g != n {
		return fmt.Sprintf("header has %d values instead of %d: %v %v %v %q %v", g, n, h.Bools, h.Ints, h.Floats, h.Strings, h.Dates)
	}
	return ""
}

func runP12(c *Case) {
	fs := vsim.NewFS()
	files := map[string]*hdrImg{}
	var names []string
	add := func(nm string, m *hdrImg) {
		if files[nm] == nil {
			names = append(names, nm)
		}
		files[nm] = m
	}
	for i := c.Int("n", 1, 3); i > 0; i-- {
		nm := fmt.Sprintf("in%d", i)
		r := c.Rand(nm)
		s := &fitsSpec{Bitpix: c.Pick(nm+".bitpix", -32, -32, 16, 8), Naxis: []int{1 + r.N(30), 1 + r.N(20)}}
		n := s.Naxis[0] * s.Naxis[1]
		switch c.Int(nm+".dims", 0, 7) {
		case 0:
			s.Naxis = append(s.Naxis, 3)
			n *= 3
		case 1:
			s.Naxis = append(s.Naxis, 1)
		case 2:
			s.Naxis = append(s.Naxis, 2, 2)
			n *= 4
		case 3:
			s.Naxis = []int{100 + 7*r.N(9), 50}
			if r.N(10) == 0 { // more pixels than 16 bits can count
				s.Naxis[0] = 1400
			}
			n = s.Naxis[0] * 50
		}
		for k := 0; k < n; k++ {
			v := float64(float32((r.F() - 0.2) * math.Pow(10, float64(r.N(9)-3))))
			switch s.Bitpix {
			case 8:
				v = float64(r.N(256))
			case 16:
				v = float64(r.N(65536) - 32768)
			default:
				if r.N(40) == 0 {
					v = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32, 1e-40, 0, -1e30}[r.N(7)]
				}
			}
			s.Raw = append(s.Raw, v)
		}
		m := &hdrImg{}
		if c.Bool(nm+".expoyes", 2, 3) {
			var x float64
			s.Exposure, x = expoText(r, c, nm)
			m.expo = float32(x)
			s.ExpKey = c.PickS(nm+".expkey", "EXPOSURE", "EXPTIME")
		}
		switch c.Int(nm+".scale", 0, 3) {
		case 1:
			s.HasB, s.Bzero, s.Bscale = true, 32768, 1
		case 2:
			s.HasB, s.Bzero, s.Bscale, s.BscaleTx = true, 0.5, 0.25, "2.5E-01"
		}
		s.Cards, m.keys = drawHeader(c, nm+".hdr")
		m.cards = s.Cards
		if len(s.Cards) > 0 {
			c.Nontrivial()
		}
		s.HeaderFiller = c.Pick(nm+".filler", 0, 0, 0, 24, 60)
		for k := 0; k < s.HeaderFiller; k++ {
			m.keys[fmt.Sprint("FILL", k)] = hdrVal{kind: 'n', n: float32(k)}
		}
		for _, v := range s.Naxis {
			m.naxis = append(m.naxis, int32(v))
		}
		m.data = s.want()
		b := s.bytes()
		nm += c.PickS(nm+".ext", ".fits", ".fit", ".fits.gz")
		if strings.HasSuffix(nm, "gz") {
			b = gz(b)
		}
		fs.Put(nm, b)
		add(nm, m)
	}
	plan := &vsim.FaultPlan{Kinds: map[string]float64{}}
	if c.Bool("short", 1, 2) {
		plan.Kinds["read-short"] = 0.3
	}
	jobs := c.Int("jobs", 1, 6)
	for j := 0; j < jobs; j++ {
		nm := fmt.Sprintf("job%d", j)
		src := []string{names[c.Int(nm+".src", 0, len(names)-1)]}
		many := c.Bool(nm+".many", 1, 3)
		if many {
			src = nil
			for _, p := range []string{"in", "out"} { // order of Glob
				for _, q := range fs.List() {
					q = strings.TrimPrefix(q, "/work/")
					if strings.HasPrefix(q, p) {
						src = append(src, q)
					}
				}
				if len(src) > 0 {
					break
				}
			}
		}
		step := c.Int(nm+".step", 0, 5)
		dst := fmt.Sprintf("out%d%s", c.Int(nm+".dst", 0, 2), c.PickS(nm+".ext", ".fits", ".fits.gz", ".fts"))
		twice := c.Bool(nm+".twice", 1, 4)
		dst2 := "out9.fits"
		if many {
			dst = fmt.Sprintf("m%d_%%d%s", c.Int(nm+".dst", 0, 1), c.PickS(nm+".ext", ".fits", ".fits.gz", ".fit"))
			dst2 = "second%d.fits"
		}
		var outs []*fits.Image
		var err error
		loaded := make([]*fits.Image, len(src))
		msgs := make([]string, len(src))
		sim := c.Sim(nm, Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 4)}, func() {
			ctx := newCtx(vsim.NewLogSink(), 1000)
			var load ops.Operator = ops.NewOpLoad(0, src[0])
			if many {
				load = ops.NewOpLoadMany([]string{strings.TrimRight(src[0][:2], "0123456789") + "*"})
			}
			seq := ops.NewOpSequence(load, newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
				if f.ID < 0 || f.ID >= len(src) {
					return nil, fmt.Errorf("image id %d", f.ID)
				}
				loaded[f.ID] = f
				msgs[f.ID] = checkHdrImage(f, files[src[f.ID]])
				switch step {
				case 1:
					for i, v := range f.Data {
						f.Data[i] = v * 2
					}
				case 2:
					f.Exposure = 12.5 + float32(f.ID)
				case 3:
					for i := range f.Data {
						if i%3 == 0 {
							f.Data[i] = float32(math.NaN())
						}
					}
				}
				return f, nil
			}), ops.NewOpSave(dst, ops.EMMinMax, 1))
			if twice {
				seq.Append(ops.NewOpSave(dst2, ops.EMMinMax, 1))
			}
			outs, err = runJob(seq, nil, ctx, false)
		})
		if err != nil || len(outs) != len(src) {
			c.Fail("error", "job %d loading %v and saving as %s: %d results, error %v", j, src, dst, len(outs), err)
		}
		if len(sim.Faults) > 0 {
			c.Probe("short reads")
		}
		for i, f := range loaded {
			if f == nil || msgs[i] != "" {
				c.Fail("load", "job %d loaded %s wrongly: %s; cards %q", j, src[i], msgs[i], files[src[i]].cards)
			}
		}
		// what the outputs must contain
		for i, sn := range src {
			o := files[sn]
			m := &hdrImg{naxis: o.naxis, data: clone32(o.data), expo: o.expo, keys: map[string]hdrVal{}}
			for k, v := range o.keys {
				if k != "CREATOR" && k != "PROGRAM" {
					m.keys[k] = v
				}
			}
			m.keys["PROGRAM"] = hdrVal{kind: 's', s: "nightlight"}
			for k, v := range m.data {
				if step == 1 {
					v *= 2
				}
				if step == 3 && k%3 == 0 || isNaN(v) {
					v = 0
				}
				m.data[k] = v
			}
			if step == 2 {
				m.expo = 12.5 + float32(i)
			}
			for k, d := range []string{dst, dst2} {
				if k == 1 && !twice {
					break
				}
				if many {
					d = fmt.Sprintf(d, i)
				}
				add(d, m)
			}
		}
		for _, p := range names {
			b, ok := fs.Get(p)
			if !ok {
				c.Fail("missing", "after job %d there is no file %s", j, p)
			}
			if strings.HasPrefix(p, "in") {
				continue
			}
			if msg := checkHdrFile(b, strings.HasSuffix(p, "gz"), files[p]); msg != "" {
				c.Fail("saved", "after job %d (%v to %s) file %s is wrong: %s", j, src, dst, p, msg)
			}
			c.Probe("files checked")
		}
		if len(fs.List()) != len(names) {
			c.Fail("extra-file", "after job %d there are files %v, expected %v", j, fs.List(), names)
		}
	}
}
