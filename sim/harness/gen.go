package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// ---- an independent FITS encoder and decoder (standard 4.0 subset) ----

type fitsSpec struct {
	Bitpix       int
	Naxis        []int
	Raw          []float64 // stored values (before scaling)
	Bzero        float64
	Bscale       float64
	HasB         bool
	Exposure     string // card text, "" absent
	ExpKey       string
	Cards        []string
	NoPad        bool
	BscaleTx     string
	BzeroTx      string
	ScaleAtEnd   bool
	HeaderFiller int
}

func card(s string) string {
	if len(s) > 80 {
		s = s[:80]
	}
	return s + strings.Repeat(" ", 80-len(s))
}

func (s *fitsSpec) bytes() []byte {
	var b bytes.Buffer
	b.WriteString(card("SIMPLE  =                    T / conforms to FITS standard"))
	b.WriteString(card(fmt.Sprintf("BITPIX  = %20d / array data type", s.Bitpix)))
	b.WriteString(card(fmt.Sprintf("NAXIS   = %20d / number of array dimensions", len(s.Naxis))))
	for i, n := range s.Naxis {
		b.WriteString(card(fmt.Sprintf("NAXIS%-3d= %20d", i+1, n)))
	}
	for i := 0; i < s.HeaderFiller; i++ {
		b.WriteString(card(fmt.Sprintf("FILL%-4d= %20d / filler", i, i)))
	}
	if s.HasB {
		zt, st := s.BzeroTx, s.BscaleTx
		if zt == "" {
			zt = strconv.FormatFloat(s.Bzero, 'f', -1, 64)
		}
		if st == "" {
			st = strconv.FormatFloat(s.Bscale, 'f', -1, 64)
		}
		b.WriteString(card(fmt.Sprintf("BZERO   = %20s / offset", zt)))
		b.WriteString(card(fmt.Sprintf("BSCALE  = %20s / scale", st)))
	}
	if s.Exposure != "" {
		k := s.ExpKey
		if k == "" {
			k = "EXPOSURE"
		}
		b.WriteString(card(fmt.Sprintf("%-8s= %20s / [s]", k, s.Exposure)))
	}
	for _, c := range s.Cards {
		b.WriteString(card(c))
	}
	b.WriteString(card("END"))
	for b.Len()%2880 != 0 {
		b.WriteByte(' ')
	}
	for _, v := range s.Raw {
		switch s.Bitpix {
		case 8:
			b.WriteByte(byte(int(v)))
		case 16:
			binary.Write(&b, binary.BigEndian, int16(v))
		case 32:
			binary.Write(&b, binary.BigEndian, int32(v))
		case 64:
			binary.Write(&b, binary.BigEndian, int64(v))
		case -32:
			binary.Write(&b, binary.BigEndian, float32(v))
		case -64:
			binary.Write(&b, binary.BigEndian, v)
		}
	}
	if !s.NoPad {
		for b.Len()%2880 != 0 {
			b.WriteByte(0)
		}
	}
	return b.Bytes()
}

// want returns the physical values a reader must deliver, as float32.
func (s *fitsSpec) want() []float32 {
	out := make([]float32, len(s.Raw))
	bs, bz := float32(1), float32(0)
	if s.HasB {
		bs, bz = float32(s.Bscale), float32(s.Bzero)
	}
	for i, v := range s.Raw {
		out[i] = float32(v)*bs + bz
	}
	return out
}

func fitsF32(w, h int, data []float32, exposure string, extra ...string) []byte {
	s := &fitsSpec{Bitpix: -32, Naxis: []int{w, h}, Exposure: exposure, Cards: extra}
	if len(data) == 3*w*h && w*h > 0 {
		s.Naxis = []int{w, h, 3}
	}
	s.Raw = make([]float64, len(data))
	for i, v := range data {
		s.Raw[i] = float64(v)
	}
	return s.bytes()
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

type fitsFile struct {
	Bitpix int
	Naxis  []int
	Data   []float32
	Keys   map[string][]string // value text by key
	Order  []string
	Extra  int // bytes beyond the padded data unit
	Pad    bool
}

// decodeFits parses strictly and independently of the code under test.
func decodeFits(b []byte) (*fitsFile, error) {
	f := &fitsFile{Keys: map[string][]string{}}
	off := 0
	end := false
	for !end {
		if off+2880 > len(b) {
			return nil, fmt.Errorf("header block at %d is incomplete (file has %d bytes)", off, len(b))
		}
		blk := b[off : off+2880]
		off += 2880
		for i := 0; i < 36; i++ {
			l := string(blk[i*80 : i*80+80])
			if end {
				if strings.TrimSpace(l) != "" {
					return nil, fmt.Errorf("non-blank card after END: %q", l)
				}
				continue
			}
			for j := 0; j < 80; j++ {
				if l[j] < 32 || l[j] > 126 {
					return nil, fmt.Errorf("card %q has a non-printing character", l)
				}
			}
			key := strings.TrimRight(l[:8], " ")
			if key == "END" && strings.TrimSpace(l[8:]) == "" {
				end = true
				continue
			}
			if key == "" || key == "COMMENT" || key == "HISTORY" {
				continue
			}
			if key == "CONTINUE" {
				if len(f.Order) == 0 {
					return nil, fmt.Errorf("stray CONTINUE")
				}
				k := f.Order[len(f.Order)-1]
				v := f.Keys[k]
				s, err := fitsString(strings.TrimSpace(l[8:]))
				if err != nil {
					return nil, fmt.Errorf("%v in %q", err, l)
				}
				prev := v[len(v)-1]
				if !strings.HasSuffix(prev, "&") {
					return nil, fmt.Errorf("CONTINUE without &: %q", l)
				}
				v[len(v)-1] = prev[:len(prev)-1] + s
				continue
			}
			if l[8:10] != "= " {
				return nil, fmt.Errorf("card %q has no value indicator", l)
			}
			val := strings.TrimSpace(l[10:])
			if strings.HasPrefix(val, "'") {
				s, err := fitsString(val)
				if err != nil {
					return nil, fmt.Errorf("%v in %q", err, l)
				}
				val = s
			} else if k := strings.Index(val, "/"); k >= 0 {
				val = strings.TrimSpace(val[:k])
			}
			f.Keys[key] = append(f.Keys[key], val)
			f.Order = append(f.Order, key)
		}
	}
	get := func(k string) (int, error) {
		v := f.Keys[k]
		if len(v) != 1 {
			return 0, fmt.Errorf("key %s occurs %d times", k, len(v))
		}
		return strconv.Atoi(v[0])
	}
	if len(f.Order) < 3 || f.Order[0] != "SIMPLE" || f.Keys["SIMPLE"][0] != "T" {
		return nil, fmt.Errorf("no SIMPLE = T")
	}
	var err error
	if f.Bitpix, err = get("BITPIX"); err != nil {
		return nil, err
	}
	na, err := get("NAXIS")
	if err != nil {
		return nil, err
	}
	px := 1
	for i := 1; i <= na; i++ {
		n, err := get(fmt.Sprint("NAXIS", i))
		if err != nil {
			return nil, err
		}
		f.Naxis = append(f.Naxis, n)
		px *= n
	}
	if f.Bitpix != -32 {
		return nil, fmt.Errorf("BITPIX %d", f.Bitpix)
	}
	bz, bs := 0.0, 1.0
	if v := f.Keys["BZERO"]; len(v) > 0 {
		if bz, err = strconv.ParseFloat(v[0], 64); err != nil {
			return nil, err
		}
	}
	if v := f.Keys["BSCALE"]; len(v) > 0 {
		if bs, err = strconv.ParseFloat(v[0], 64); err != nil {
			return nil, err
		}
	}
	if off+4*px > len(b) {
		return nil, fmt.Errorf("data unit is incomplete: %d of %d bytes", len(b)-off, 4*px)
	}
	f.Data = make([]float32, px)
	for i := range f.Data {
		v := math.Float32frombits(binary.BigEndian.Uint32(b[off+4*i:]))
		f.Data[i] = float32(float64(v)*bs + bz)
	}
	tot := off + (4*px+2879)/2880*2880
	f.Pad = len(b) >= tot
	f.Extra = len(b) - tot
	return f, nil
}

func fitsString(v string) (string, error) {
	if !strings.HasPrefix(v, "'") {
		return "", fmt.Errorf("no opening quote")
	}
	var sb strings.Builder
	i := 1
	for {
		if i >= len(v) {
			return "", fmt.Errorf("unterminated string")
		}
		if v[i] == '\'' {
			if i+1 < len(v) && v[i+1] == '\'' {
				sb.WriteByte('\'')
				i += 2
				continue
			}
			break
		}
		sb.WriteByte(v[i])
		i++
	}
	return strings.TrimRight(sb.String(), " "), nil
}

// ---- images ----

func mkImg(id, w, h int, data []float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, data)
	f.ID = id
	f.Exposure = 10
	f.FileName = fmt.Sprintf("img%d.fits", id)
	return f
}

func mkImg3(id, w, h int, data []float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, data)
	f.ID = id
	f.Exposure = 10
	return f
}

func clone32(d []float32) []float32 { return append([]float32(nil), d...) }

func randData(r *R, n int, lo, hi float64) []float32 {
	d := make([]float32, n)
	for i := range d {
		d[i] = float32(lo + (hi-lo)*r.F())
	}
	return d
}

type starPos struct{ X, Y, A, S float64 }

// skyModel holds stars in sky coordinates; frames are rendered with an offset.
func skyModel(r *R, w, h, n, margin int) []starPos {
	var out []starPos
	for tries := 0; len(out) < n && tries < 4000; tries++ {
		p := starPos{float64(margin) + r.F()*float64(w-2*margin), float64(margin) + r.F()*float64(h-2*margin), 2000 + 8000*r.F(), 1.3 + 0.3*r.F()}
		ok := true
		for _, q := range out {
			dx, dy := p.X-q.X, p.Y-q.Y
			if dx*dx+dy*dy < 100 {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func renderSky(r *R, stars []starPos, w, h int, bg, noise, gain, dx, dy float64) []float32 {
	d := make([]float64, w*h)
	for i := range d {
		d[i] = bg + noise*r.Norm()
	}
	for _, s := range stars {
		x0, y0 := s.X+dx, s.Y+dy
		for y := int(y0) - 7; y <= int(y0)+7; y++ {
			for x := int(x0) - 7; x <= int(x0)+7; x++ {
				if x < 0 || y < 0 || x >= w || y >= h {
					continue
				}
				ex, ey := float64(x)-x0, float64(y)-y0
				d[y*w+x] += gain * s.A * math.Exp(-(ex*ex+ey*ey)/(2*s.S*s.S))
			}
		}
	}
	out := make([]float32, w*h)
	for i, v := range d {
		out[i] = float32(v)
	}
	return out
}

// ---- comparison helpers ----

func bitsEq(a, b []float32) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) && !(isNaN(a[i]) && isNaN(b[i])) {
			return i
		}
	}
	return -1
}

func isNaN(f float32) bool { return f != f }

func near(a, b float32, rel, abs float64) bool {
	if isNaN(a) || isNaN(b) {
		return isNaN(a) && isNaN(b)
	}
	d := math.Abs(float64(a) - float64(b))
	return d <= abs || d <= rel*math.Max(math.Abs(float64(a)), math.Abs(float64(b)))
}

// nearAll returns the first index that differs, or -1.
func nearAll(a, b []float32, rel, abs float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if !near(a[i], b[i], rel, abs) {
			return i
		}
	}
	return -1
}

func at(d []float32, i int) string {
	if i < 0 || i >= len(d) {
		return fmt.Sprintf("(length %d)", len(d))
	}
	return fmt.Sprint(d[i])
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func i32s(v []int32) string { return fmt.Sprint(v) }

// ---- contexts and pipelines ----

func newCtx(log io.Writer, stMB int) *ops.Context {
	return ops.NewContext(log, stMB, stats.LSESCMedianQn)
}

// runJob evaluates an operator as the command does.
func runJob(op ops.Operator, ins []ops.Promise, c *ops.Context, forget bool) (outs []*fits.Image, err error) {
	ps, err := op.MakePromises(ins, c)
	if err != nil {
		return nil, err
	}
	return ops.MaterializeAll(ps, c.MaxThreads, forget)
}

func promiseOf(f *fits.Image) ops.Promise {
	return func() (*fits.Image, error) { return f, nil }
}

func promisesOf(fs ...*fits.Image) []ops.Promise {
	var ps []ops.Promise
	for _, f := range fs {
		ps = append(ps, promiseOf(f))
	}
	return ps
}

// fnOp is a harness operator that applies fn to each input.
type fnOp struct {
	ops.OpUnaryBase
}

func newFnOp(fn func(f *fits.Image, c *ops.Context) (*fits.Image, error)) *fnOp {
	o := &fnOp{ops.OpUnaryBase{OpBase: ops.OpBase{Type: "harness"}}}
	o.Apply = fn
	return o
}

func errStr(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func sortedCopy(d []float32) []float32 {
	o := clone32(d)
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

var _ = vsim.Active

func f32bits(f float32) uint32 { return math.Float32bits(f) }

func containsAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}
