package main

import (
	"fmt"
	"math"
	"sort"

	colorful "github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P18: pixel operations apply their documented function to each pixel exactly once.
func init() {
	register(&Prop{ID: "P18", Quick: 60000, Rule: "Each case draws an operation with its settings, an image of 1x1 to about 100x80 pixels in one or three channels, a CPU count and a schedule of the work packages, and compares every pixel with a float64 model.", Run: runP18})
}

// pmodel holds the expected pixels; skip marks pixels too close to a threshold, tol the tolerance.
type pmodel struct {
	want     []float64
	skip     []bool
	rel, abs float64
	hue      bool                             // channel 0 is an angle
	post     func(c *Case, in, out []float32) // replaces the comparison
}

func newModel(in []float32) *pmodel {
	m := &pmodel{want: make([]float64, len(in)), skip: make([]bool, len(in)), rel: 2e-4, abs: 2e-5}
	for i, v := range in {
		m.want[i] = float64(v)
	}
	return m
}

// meanStd64 returns mean and standard deviation.
func meanStd64(d []float32) (float64, float64) {
	s := 0.0
	for _, v := range d {
		s += float64(v)
	}
	m := s / float64(len(d))
	q := 0.0
	for _, v := range d {
		q += (float64(v) - m) * (float64(v) - m)
	}
	return m, math.Sqrt(q / float64(len(d)))
}

func minMax64(d []float32) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range d {
		lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
	}
	return lo, hi
}

const thrEps = 2e-5

// gaussKernel is the one-dimensional blur kernel: areas under the normal curve per pixel,
// cut where less than 1% remains on a side, scaled to sum one. ok is false near a size decision.
func gaussKernel(sigma float64) (k []float64, ok bool) {
	phi := func(x float64) float64 { return 0.5 * (1 + math.Erf(x/(math.Sqrt2*sigma))) }
	rad := 0
	for {
		v := phi(-0.5 - float64(rad))
		if math.Abs(v-0.01) < 1e-5 {
			return nil, false
		}
		if v < 0.01 {
			break
		}
		rad++
	}
	rad--
	if rad < 0 {
		rad = 0
	}
	sum := 0.0
	for i := -rad; i <= rad; i++ {
		v := phi(float64(i)+0.5) - phi(float64(i)-0.5)
		k = append(k, v)
		sum += v
	}
	for i := range k {
		k[i] /= sum
	}
	return k, true
}

func mirror(n, x int) int {
	for x < 0 || x >= n {
		if x < 0 {
			x = -x - 1
		} else {
			x = 2*n - x - 1
		}
	}
	return x
}

func blur64(d []float32, w int, k []float64) []float64 {
	h := len(d) / w
	r := len(k) / 2
	t, o := make([]float64, len(d)), make([]float64, len(d))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				t[y*w+x] += float64(d[y*w+mirror(w, x+i)]) * k[i+r]
			}
		}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for i := -r; i <= r; i++ {
				o[y*w+x] += t[mirror(h, y+i)*w+x] * k[i+r]
			}
		}
	}
	return o
}

func midtones64(m *pmodel, off, n int, mid, black float64) bool {
	f := func(d float64) (float64, float64) { q := (2*mid-1)*d - mid; return d * (mid - 1) / q, q }
	lo, q := f(black)
	if math.Abs(q) < 0.02 || mid < 1e-3 || mid > 0.9 || lo > 0.98 || black < 0 && mid < 0.5 && black < 0.9*mid/(2*mid-1) {
		return false
	}
	for i := off; i < off+n; i++ {
		v, q := f(m.want[i])
		if math.Abs(q) < 1e-3 {
			m.skip[i] = true
		}
		if v < lo {
			v = lo
		}
		if v > 1 {
			v = 1
		}
		m.want[i] = (v - lo) / (1 - lo)
	}
	m.abs = 2e-3
	return true
}

func unsharp64(m *pmodel, d []float32, off, w int, sigma, gain, thr float64) bool {
	k, ok := gaussKernel(sigma)
	if !ok {
		return false
	}
	b := blur64(d, w, k)
	lo, hi := minMax64(d)
	for i, v := range d {
		v := float64(v)
		if math.Abs(v-thr) < thrEps {
			m.skip[off+i] = true
		}
		if v >= thr {
			m.want[off+i] = math.Max(lo, math.Min(hi, v+(v-b[i])*gain))
		}
	}
	return true
}

// monotone checks that the pixel values keep their order and equal values stay equal.
func monotone(c *Case, in, out []float32) {
	ix := make([]int, len(in))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return in[ix[a]] < in[ix[b]] })
	for k := 1; k < len(ix); k++ {
		a, b := ix[k-1], ix[k]
		if in[a] == in[b] && out[a] != out[b] || in[a] < in[b] && out[a] > out[b]+1e-6 {
			c.Fail("pixels", "values %g and %g at pixels %d and %d became %g and %g", in[a], in[b], a, b, out[a], out[b])
		}
	}
}

func stretchPost(c *Case, op string, in, out []float32, loc, scale float64, warned func() bool) {
	monotone(c, in, out)
	for i, v := range out {
		if !(v >= 0 && v <= 1.00001) {
			c.Fail("pixels", "%s: pixel %d of %g became %g", op, i, in[i], v)
		}
	}
	if warned() {
		c.Probe("stretch did not converge")
	}
	l, s := meanStd64(out)
	if s < scale*0.995 && l > loc*1.011 && !warned() {
		c.Fail("stretch-target", "%s to location %g and scale %g ended at %g and %g", op, loc, scale, l, s)
	}
}

// p18Op is one drawn operation.
type p18Op struct {
	name  string
	color bool
	op    ops.Operator
	model func(in []float32, w, n int) *pmodel // nil: cannot be judged
}

var p18Names = []string{"scaleOffset", "normRange", "stretch", "midtones", "gamma", "gammaPP", "scaleBlack", "gaussianBlur", "unsharpMask",
	"hslScaleOffsetChannel", "hslNeutralizeBackground", "hslSaturationGamma", "hslSelectiveSaturation", "hslRotateHue", "hslSCNR", "hslMidtones", "hslGamma", "hslGammaPP", "HSLUnsharpMask", "hslScaleBlack", "hslStretch", "rgbToHSLuv", "hsluvToRGB", "hslApplyLum"}

func f32(x float64) float32 { return float32(x) }

// drawPixOp draws an operation of the given kind with settings.
func drawPixOp(r *R, name string, log *vsim.LogSink, lum []float32) *p18Op {
	u := func(lo, hi float64) float64 { return float64(float32(lo + (hi-lo)*r.F())) }
	pick := func(v ...float64) float64 { return float64(float32(v[r.N(len(v))])) }
	o := &p18Op{name: name}
	warned := func() bool { return containsAny(string(logText(log)), "did not converge") }
	switch name {
	case "scaleOffset":
		s, t := pick(1, 0, -1, 0.5, 2, 100, u(-3, 3)), pick(0, 1, -0.25, u(-10, 10))
		o.op = pre.NewOpScaleOffset(f32(s), f32(t))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			for i := range m.want {
				m.want[i] = m.want[i]*s + t
			}
			m.abs = 1e-5 * (1 + math.Abs(s) + math.Abs(t))
			return m
		}
	case "normRange":
		o.op = stretch.NewOpNormalizeRange()
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			lo, hi := minMax64(in)
			if hi-lo < 1e-7 { // a uniform image stays as it is
				if hi > lo {
					return nil
				}
				return m
			}
			for i := range m.want {
				m.want[i] = (m.want[i] - lo) / (hi - lo)
			}
			return m
		}
	case "stretch", "hslStretch":
		l, s := u(0.02, 0.4), u(0.001, 0.2)
		if name == "stretch" {
			o.op = stretch.NewOpStretchIterative(f32(l), f32(s))
			o.model = func(in []float32, w, n int) *pmodel {
				m := newModel(in)
				m.post = func(c *Case, in, out []float32) { stretchPost(c, name, in, out, l, s, warned) }
				return m
			}
		} else {
			o.color = true
			o.op = hsl.NewOpHSLStretchIterative(f32(l), f32(s))
			o.model = func(in []float32, w, n int) *pmodel {
				m := newModel(in)
				m.post = func(c *Case, in, out []float32) {
					if i := bitsEq(in[:2*n], out[:2*n]); i >= 0 {
						c.Fail("pixels", "%s changed value %d of hue or saturation from %g to %g", name, i, in[i], out[i])
					}
					stretchPost(c, name, in[2*n:], out[2*n:], l, s, warned)
				}
				return m
			}
		}
	case "midtones", "hslMidtones":
		mid, black := u(0.05, 2.5), u(-1, 3)
		off := 0
		if name == "midtones" {
			o.op = stretch.NewOpMidtones(f32(mid), f32(black))
		} else {
			o.color, off = true, 2
			o.op = hsl.NewOpHSLMidtones(f32(mid), f32(black))
		}
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			loc, sc := meanStd64(in[off*n:])
			if !midtones64(m, off*n, n, mid*sc, loc-black*sc) {
				return nil
			}
			return m
		}
	case "gamma", "hslGamma":
		g := pick(1, 2, 0.5, u(0.3, 5))
		off := 0
		if name == "gamma" {
			o.op = stretch.NewOpGamma(f32(g))
		} else {
			o.color, off = true, 2
			o.op = hsl.NewOpHSLGamma(f32(g))
		}
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			for i := off * n; i < len(in); i++ {
				m.want[i] = math.Pow(m.want[i], 1/g)
			}
			return m
		}
	case "gammaPP", "hslGammaPP":
		g, sg := pick(1, 2, 0.5, u(0.3, 5)), pick(0, 1, u(-2, 3))
		off := 0
		if name == "gammaPP" {
			o.op = stretch.NewOpGammaPP(f32(g), f32(sg))
		} else {
			o.color, off = true, 2
			o.op = hsl.NewOpHSLGammaPP(f32(g), f32(sg))
		}
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			loc, sc := meanStd64(in[off*n:])
			from := loc + sg*sc
			if g == 1 {
				return m
			}
			for i := off * n; i < len(in); i++ {
				v := m.want[i]
				if math.Abs(v-from) < thrEps {
					m.skip[i] = true
				}
				if v > from && v < 1 {
					m.want[i] = from + math.Pow((v-from)/(1-from), 1/g)*(1-from)
				}
			}
			m.abs = 1e-3
			return m
		}
	case "scaleBlack", "hslScaleBlack":
		l := pick(0, 0.05, 0.3, u(0.001, 0.6))
		off := 0
		if name == "scaleBlack" {
			o.op = stretch.NewOpScaleBlack(f32(l))
		} else {
			o.color, off = true, 2
			o.op = hsl.NewOpHSLScaleBlack(f32(l))
		}
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			loc, _ := meanStd64(in[off*n:])
			t := l
			if off == 2 {
				_, _, t = colorful.LinearRgb(l, l, l).HSLuv()
			}
			if l == 0 || loc < t-1e-5 {
				return m
			}
			if loc == 1 { // no black point moves white
				return m
			}
			if loc < t+1e-5 || loc > 1-1e-6 {
				return nil
			}
			m.abs += 1e-6 / (1 - loc)
			b := (t - loc) / (t - 1)
			for i := off * n; i < len(in); i++ {
				m.want[i] = math.Max(0, (m.want[i]-b)/(1-b))
			}
			return m
		}
	case "gaussianBlur":
		s := pick(0, 0.1, 0.2, 1, 2, u(0.1, 5))
		o.op = stretch.NewOpGaussianBlur(f32(s))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			if s == 0 {
				return m
			}
			k, ok := gaussKernel(s)
			if !ok {
				return nil
			}
			m.want = blur64(in, w, k)
			return m
		}
	case "unsharpMask", "HSLUnsharpMask":
		s, g, t := pick(1, 1.5, u(0.1, 4)), pick(0, 0.5, 3, u(0, 5)), u(-2, 2)
		off := 0
		if name == "unsharpMask" {
			o.op = stretch.NewOpUnsharpMask(f32(s), f32(g), f32(t))
		} else {
			o.color, off = true, 2
			o.op = hsl.NewOpHSLUnsharpMask(f32(s), f32(g), f32(t))
		}
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			if g == 0 {
				return m
			}
			d := in[off*n:]
			loc, sc := meanStd64(d)
			if !unsharp64(m, d, off*n, w, s, g, loc+sc*t) {
				return nil
			}
			return m
		}
	case "hslScaleOffsetChannel":
		ch := r.N(3)
		s, t := pick(1, 0, -1, 0.5, u(-3, 3)), pick(0, 1, u(-10, 10))
		o.color = true
		o.op = hsl.NewOpHSLScaleOffsetChannel(ch, f32(s), f32(t))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			for i := ch * n; i < (ch+1)*n; i++ {
				m.want[i] = m.want[i]*s + t
			}
			return m
		}
	case "hslNeutralizeBackground":
		lo := u(-1, 2)
		hi := lo + pick(0, 0.5, u(0, 2))
		hi = float64(f32(hi))
		o.color = true
		o.op = hsl.NewOpHSLNeutralizeBackground(f32(lo), f32(hi))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			if lo <= 0 && hi <= 0 {
				return m
			}
			loc, sc := meanStd64(in[2*n:])
			a, b := loc+lo*sc, loc+hi*sc
			if b-a < 1e-3 && b != a {
				return nil
			}
			for i := 0; i < n; i++ {
				l := float64(in[2*n+i])
				if math.Abs(l-a) < thrEps || math.Abs(l-b) < thrEps {
					m.skip[n+i] = true
				}
				if l < a {
					m.want[n+i] = 0
				} else if l < b {
					m.want[n+i] *= (l - a) / (b - a)
				}
			}
			m.abs = 5e-4
			return m
		}
	case "hslSaturationGamma":
		g, sg := pick(1, 2, 0.5, u(0.3, 4)), u(-2, 2)
		o.color = true
		o.op = hsl.NewOpHSLSaturationGamma(f32(g), f32(sg))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			if g == 1 {
				return m
			}
			loc, sc := meanStd64(in[2*n:])
			t := loc + sg*sc
			for i := 0; i < n; i++ {
				l := float64(in[2*n+i])
				m.skip[n+i] = math.Abs(l-t) < thrEps
				if l >= t {
					m.want[n+i] = math.Pow(m.want[n+i], 1/g)
				}
			}
			return m
		}
	case "hslSelectiveSaturation", "hslRotateHue":
		from, to := pick(0, 100, 295, u(0, 360)), pick(360, 40, 190, u(0, 360))
		inHue := func(h float64) (bool, bool) {
			near := math.Abs(h-from) < 1e-3 || math.Abs(h-to) < 1e-3
			if from <= to {
				return h > from && h < to, near
			}
			return h > from || h < to, near
		}
		o.color = true
		if name == "hslSelectiveSaturation" {
			k := pick(1, 0, 0.5, 2, u(0, 3))
			o.op = hsl.NewOpHSLSelectiveSaturation(f32(from), f32(to), f32(k))
			o.model = func(in []float32, w, n int) *pmodel {
				m := newModel(in)
				if k == 1 {
					return m
				}
				for i := 0; i < n; i++ {
					is, nr := inHue(float64(in[i]))
					m.skip[n+i] = nr
					if is {
						m.want[n+i] = math.Max(0, math.Min(1, m.want[n+i]*k))
					}
				}
				return m
			}
		} else {
			a, sg := pick(0, 30, -30, u(-180, 180)), u(-2, 2)
			o.op = hsl.NewOpHSLRotateHue(f32(from), f32(to), f32(a), f32(sg))
			o.model = func(in []float32, w, n int) *pmodel {
				m := newModel(in)
				m.hue = true
				loc, sc := meanStd64(in[2*n:])
				t := loc + sg*sc
				for i := 0; i < n; i++ {
					is, nr := inHue(float64(in[i]))
					l := float64(in[2*n+i])
					m.skip[i] = nr || math.Abs(l-t) < thrEps
					if is && l >= t {
						m.want[i] += a
					}
				}
				return m
			}
		}
	case "hslSCNR":
		k := pick(0, 0.3, 1, u(0, 1))
		o.color = true
		o.op = hsl.NewOpHSLSCNR(f32(k))
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			m.hue = true
			if k == 0 {
				return m
			}
			m.abs = 2e-3
			for i := 0; i < n; i++ {
				R, G, B := colorful.HSLuv(m.want[i], m.want[n+i], m.want[2*n+i]).Clamped().LinearRgb()
				g2 := k*math.Min(G, 0.5*(R+B)) + (1-k)*G
				h, s, _ := colorful.LinearRgb(R, g2, B).HSLuv()
				m.want[i], m.want[n+i] = h, s
				if s < 0.05 || in[n+i] < 0.05 { // near grey, HSLuv is discontinuous
					m.skip[i], m.skip[n+i] = true, true
				}
				if l := in[2*n+i]; l < 0.03 || l > 0.97 {
					m.skip[i], m.skip[n+i] = true, true
				}
			}
			return m
		}
	case "rgbToHSLuv":
		o.color = true
		o.op = rgb.NewOpRGBToHSLuv()
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			m.hue = true
			m.abs = 2e-4
			for i := 0; i < n; i++ {
				h, s, l := colorful.LinearRgb(m.want[i], m.want[n+i], m.want[2*n+i]).HSLuv()
				m.want[i], m.want[n+i], m.want[2*n+i] = h, s, l
				if s < 1e-3 || l < 1e-3 || l > 0.999 {
					m.skip[i], m.skip[n+i] = true, true
				}
			}
			return m
		}
	case "hsluvToRGB":
		o.color = true
		o.op = rgb.NewOpHSLuvToRGB()
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			m.abs = 5e-4
			for i := 0; i < n; i++ {
				R, G, B := colorful.HSLuv(m.want[i], m.want[n+i], m.want[2*n+i]).LinearRgb()
				if x := math.Max(R, math.Max(G, B)); x > 1 { // keeps the color when clamping
					R, G, B = R/x, G/x, B/x
				}
				m.want[i], m.want[n+i], m.want[2*n+i] = R, G, B
			}
			return m
		}
	case "hslApplyLum":
		o.color = true
		o.op = hsl.NewOpHSLApplyLum()
		o.model = func(in []float32, w, n int) *pmodel {
			m := newModel(in)
			lo, hi := 0.0, 1.0 // the luminance covers the range of the colors
			if lum != nil {
				if a, b := finiteRange(lum); a < b {
					lo, hi = a, b
				}
			}
			for i := 0; i < n && lum != nil; i++ {
				v := (float64(lum[i]) - lo) / (hi - lo)
				_, _, l := colorful.LinearRgb(v, v, v).HSLuv()
				m.want[2*n+i] = l
			}
			return m
		}
	}
	return o
}

func logText(l *vsim.LogSink) []byte {
	var b []byte
	for _, m := range l.Msgs {
		b = append(b, m...)
	}
	return b
}

// drawPix draws image data for an operation: kinds of value distribution in [0,1].
func drawPix(r *R, n int, color bool, hues bool, dist int) []float32 {
	k := n
	if color {
		k = 3 * n
	}
	d := randData(r, k, 0, 1)
	switch dist {
	case 1: // sky-like: most values around a low background
		for i := range d {
			v := 0.05 + 0.02*r.Norm()
			if r.N(20) == 0 {
				v = r.F()
			}
			d[i] = float32(math.Max(0, math.Min(1, v)))
		}
	case 2: // few levels, ties
		for i := range d {
			d[i] = float32(r.N(5)) / 4
		}
	case 3: // narrow
		for i := range d {
			d[i] = float32(0.3 + 0.1*r.F())
		}
	case 4: // uniform
		for i := range d {
			d[i] = d[i/n*n]
		}
	}
	if color && hues {
		for i := 0; i < n; i++ {
			d[i] = float32(360 * r.F())
		}
	}
	return d
}

// checkPix compares an image with the model.
func checkPix(c *Case, what string, m *pmodel, n int, in, out []float32) {
	if len(out) != len(m.want) {
		c.Fail("dimensions", "%s turned %d values into %d", what, len(m.want), len(out))
	}
	if m.post != nil {
		m.post(c, in, out)
		return
	}
	for i, v := range out {
		if m.skip[i] {
			continue
		}
		g, e := float64(v), m.want[i]
		tol := m.abs + m.rel*math.Abs(e)
		d := math.Abs(g - e)
		if m.hue && i < n {
			d = math.Abs(math.Mod(d, 360))
			d = math.Min(d, 360-d)
			tol = 0.05
		}
		if !(d <= tol) {
			c.Fail("pixels", "%s: value %d of %d changed from %g to %g instead of %g (channels %v to %v)", what, i, len(out), in[i], g, e, every(in, i%n, n), every(out, i%n, n))
		}
	}
}

func runP18(c *Case) {
	name := p18Names[c.Int("op", 0, len(p18Names)-1)]
	r := c.Rand("op")
	w, h := c.Int("w", 1, 40), c.Int("h", 1, 40)
	if c.Bool("big", 1, 6) {
		w, h = w+60, h+40
		if c.Bool("large", 1, 12) {
			w, h = w*4+1, h*3+1
		}
	}
	if c.Bool("line", 1, 10) {
		h = 1
	}
	n := w * h
	log := vsim.NewLogSink()
	var lum []float32
	if name == "hslApplyLum" && c.Bool("lum", 3, 4) {
		lum = drawPix(r, n, false, false, 0)
	}
	o := drawPixOp(r, name, log, lum)
	in := drawPix(c.Rand("pix"), n, o.color, name != "rgbToHSLuv", c.Int("dist", 0, 4))
	m := o.model(in, w, n)
	if m == nil {
		return
	}
	var f *fits.Image
	data := clone32(in)
	if o.color {
		f = mkImg3(7, w, h, data)
	} else {
		f = mkImg(7, w, h, data)
	}
	shape := fmt.Sprint(f.Naxisn)
	var outs []*fits.Image
	var err error
	var left bool
	c.Sim("op", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 8), LS: 1}, func() {
		ctx := newCtx(log, 64)
		ctx.Log = log
		if lum != nil {
			ctx.LumFrame = mkImg(8, w, h, clone32(lum))
		}
		outs, err = runJob(o.op, promisesOf(f), ctx, false)
		left = ctx.LumFrame != nil
	})
	if err != nil {
		c.Fail("spurious-error", "%s of a %dx%d image: %v", name, w, h, err)
	}
	if len(outs) != 1 || outs[0] == nil {
		c.Fail("lost", "%s returned %d images", name, len(outs))
	}
	g := outs[0]
	if fmt.Sprint(g.Naxisn) != shape || g.ID != 7 {
		c.Fail("dimensions", "%s changed dimensions or id: %v, %d", name, g.Naxisn, g.ID)
	}
	if left {
		c.Fail("luminance", "the luminance frame is still pending after it was applied")
	}
	if n > 8 {
		c.Nontrivial()
	}
	c.Probe(name)
	checkPix(c, name, m, n, in, g.Data)
}

// every returns elements i, i+n, i+2n and so on of an image: one pixel in all its channels.
func every(d []float32, i, n int) (p []float32) {
	for ; i < len(d); i += n {
		p = append(p, d[i])
	}
	return p
}
