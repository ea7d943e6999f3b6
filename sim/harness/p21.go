package main

import (
	"fmt"
	"math"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P21: combination of channels into a color image, color balance and luminance.
func init() {
	register(&Prop{ID: "P21", Quick: 30000, Rule: "Each case draws 1-5 mono channels with stars of different color, brightness and exposure, a rejected, failing or differently sized channel, color balance settings, whether a luminance channel is applied, thread count and schedule. Non-trivial: three or more channels and threads.", Run: runP21})
}

func runP21(c *Case) {
	n := c.Pick("n", 3, 3, 3, 4, 4, 4, 2, 1, 5)
	cpu := c.Int("cpu", 1, 6)
	r := c.Rand("data")
	w, h := 12+r.N(40), 12+r.N(40)
	if c.Bool("big", 1, 60) {
		w, h = 100+r.N(150), 100+r.N(150)
	}
	sz := w * h
	ns := c.Pick("stars", 8, 5, 3, 1, 0)
	odd, bad, failing := -1, -1, -1
	switch c.Pick("defect", 0, 0, 0, 0, 0, 0, 1, 2, 3) {
	case 1:
		odd = r.N(n)
	case 2:
		bad = r.N(n)
	case 3:
		failing = r.N(n)
	}
	turned := c.Bool("turned", 1, 2)
	uniform := c.Bool("uniform", 1, 30)
	type sp struct{ x, y, hfr, a float64 }
	var stars []sp
	for i := 0; i < ns; i++ {
		stars = append(stars, sp{1 + r.F()*float64(w-3), 1 + r.F()*float64(h-3), 1 + 2*r.F(), 200 + 800*r.F()})
	}
	img := make([]*fits.Image, n)
	orig := make([][]float32, n)
	for i := range img {
		base, gain, noise := 100+200*r.F(), 0.5+r.F(), 5+10*r.F()
		d := make([]float32, sz)
		for j := range d {
			x, y := float64(j%w), float64(j/w)
			v := base + noise*r.Norm() + 20*math.Sin(x/7+float64(i))
			for _, s := range stars {
				q := (x-s.x)*(x-s.x) + (y-s.y)*(y-s.y)
				v += s.a * gain * math.Exp(-q/(2*s.hfr*s.hfr))
			}
			d[j] = float32(v)
		}
		if uniform {
			for j := range d {
				d[j] = 123
			}
		}
		ww, hh := w, h
		if i == odd && n > 1 {
			if turned && w != h {
				ww, hh = h, w
			} else {
				hh = h - 1
				d = d[:w*hh]
			}
		}
		f := mkImg(i, ww, hh, d)
		f.Exposure = float32(1 + r.N(200))
		f.HFR = float32(1 + r.F())
		for k, s := range stars {
			if i > 0 && k == 0 && r.N(2) == 0 {
				continue // missed in this channel
			}
			f.Stars = append(f.Stars, star.Star{Index: int32(int(s.y+0.5)*w + int(s.x+0.5)), X: float32(s.x), Y: float32(s.y), HFR: float32(s.hfr), Value: float32(s.a)})
		}
		img[i], orig[i] = f, clone32(d)
	}
	withRef := c.Bool("ref", 7, 8)
	balance := c.Bool("balance", 1, 2)
	lum := c.Bool("lum", 1, 2)
	block := 1 + r.N(8)
	if r.N(15) == 0 {
		block = 64
	}
	border := []float64{0, 0.1, 0.25}[r.N(3)]
	skB, skD := []float64{0, 0, 0.2, 0.6}[r.N(4)], []float64{0, 0.3, 0.5}[r.N(3)]
	tint := func() fits.RGB {
		return fits.RGB{R: float32(0.8 + 0.4*r.F()), G: float32(0.8 + 0.4*r.F()), B: float32(0.8 + 0.4*r.F())}
	}
	one := fits.RGB{R: 1, G: 1, B: 1}
	sh, hi := one, one
	if r.N(2) == 0 {
		sh, hi = tint(), tint()
	}
	var outs []*fits.Image
	var err error
	var comb, bal, conv []float32
	var combF fits.Image
	calls := make([]int, n)
	c.Sim("rgb", Opt{Explore: true, NumCPU: cpu, LS: 1}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		var seq []ops.Operator
		if withRef {
			seq = append(seq, ref.NewOpSelectReference(ref.SRAlign, "%rgb", pre.NewOpStarDetect(0, 0, 0, 0, "")))
		}
		seq = append(seq, rgb.NewOpRGBCombine(), newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
			comb, combF = clone32(f.Data), *f
			f.Stats.Location()
			return f, nil
		}))
		if balance {
			seq = append(seq, rgb.NewOpRGBBalance(int32(block), f32(border), f32(skB), f32(skD), sh, hi), newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
				bal = clone32(f.Data)
				f.Stats.Location()
				return f, nil
			}))
		}
		if lum {
			seq = append(seq, rgb.NewOpRGBToHSLuv(), newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
				conv = clone32(f.Data)
				f.Stats.Location()
				return f, nil
			}), hsl.NewOpHSLApplyLum())
		}
		var ins []ops.Promise
		for i := range img {
			i := i
			ins = append(ins, func() (*fits.Image, error) {
				calls[i]++
				vsim.Point()
				if i == bad {
					return nil, nil
				}
				if i == failing {
					return nil, fmt.Errorf("channel <%d> failed", i)
				}
				return img[i], nil
			})
		}
		outs, err = runJob(ops.NewOpSequence(seq...), ins, ctx, false)
	})
	if n >= 3 && cpu > 1 {
		c.Nontrivial()
	}
	why := ""
	switch {
	case n < 3 || n > 4:
		why = "wrong number of channels"
	case bad >= 0:
		why = "a channel was rejected"
	case failing >= 0:
		why = "a channel failed"
	case odd >= 0:
		why = "the dimensions differ"
	case balance && (ns == 0 || !withRef):
		why = "no stars to balance colors"
	}
	if why != "" {
		if err == nil {
			c.Fail("error-lost", "%s, but the job succeeded (%d channels)", why, n)
		}
		c.Probe(why)
		return
	}
	for i, k := range calls {
		if k != 1 {
			c.Fail("evaluations", "channel %d was evaluated %d times", i, k)
		}
	}
	if comb == nil {
		c.Fail("spurious-error", "%d channels of %dx%d: %v", n, w, h, err)
	}
	if err == nil && (len(outs) != 1 || len(outs[0].Data) != 3*sz || len(outs[0].Naxisn) != 3 || outs[0].Naxisn[0] != int32(w) || outs[0].Naxisn[1] != int32(h) || outs[0].Naxisn[2] != 3) {
		c.Fail("size", "%d images come out of combining %d channels of %dx%d", len(outs), n, w, h)
	}
	for i := 0; i < n; i++ {
		if i == 3 && lum && !uniform {
			continue
		}
		if i == 3 && lum {
			continue
		}
		if j := bitsEq(img[i].Data, orig[i]); j >= 0 {
			c.Fail("input-changed", "channel %d changed at %d", i, j)
		}
	}
	mn, mx := math.Inf(1), math.Inf(-1)
	for i := 0; i < 3; i++ {
		a, b := minMax64(orig[i])
		mn, mx = math.Min(mn, a), math.Max(mx, b)
	}
	for i := 0; i < 3; i++ {
		for j, v := range orig[i] {
			want := 0.0
			if mx > mn {
				want = (float64(v) - mn) / (mx - mn)
			}
			if !(math.Abs(float64(comb[i*sz+j])-want) <= 2e-6) {
				c.Fail("combine", "channel %d, pixel %d of value %g in the range %g..%g became %g, expected %g", i, j, v, mn, mx, comb[i*sz+j], want)
			}
		}
	}
	expo := img[0].Exposure + img[1].Exposure + img[2].Exposure
	if combF.Exposure != expo {
		c.Fail("exposure", "exposures %g, %g, %g were combined to %g", img[0].Exposure, img[1].Exposure, img[2].Exposure, combF.Exposure)
	}
	if withRef {
		best := 3
		if n == 3 {
			best = 0
			for i := 1; i < 3; i++ {
				if float32(len(img[i].Stars))/img[i].HFR > float32(len(img[best].Stars))/img[best].HFR {
					best = i
				}
			}
		}
		if len(combF.Stars) != len(img[best].Stars) || len(combF.Stars) > 0 && (combF.Stars[0] != img[best].Stars[0] || combF.HFR != img[best].HFR) {
			c.Fail("stars", "the combined image has %d stars and HFR %g, the reference channel %d has %d and %g", len(combF.Stars), combF.HFR, best, len(img[best].Stars), img[best].HFR)
		}
	}
	if balance {
		want, verdict := balanceModel(comb, w, h, combF.Stars, block, border, skB, skD, sh, hi)
		switch verdict {
		case "error":
			if err == nil {
				c.Fail("error-lost", "no dark block of size %d outside the border of %g of a %dx%d image, or no star to measure, but the color balance succeeded", block, border, w, h)
			}
			c.Probe("nothing to balance colors by")
			return
		case "ambiguous":
			c.Probe("ambiguous balance")
			return
		}
		if err != nil {
			c.Fail("spurious-error", "%v", err)
		}
		for j := range want {
			if !(math.Abs(float64(bal[j])-want[j]) <= 1e-3) {
				c.Fail("balance", "balancing by blocks of %d with border %g, stars from %g to %g, shadows %v, highlights %v: channel %d, pixel %d: %g became %g, expected %g", block, border, skB, 1-skD, sh, hi, j/sz, j%sz, comb[j], bal[j], want[j])
			}
		}
		c.Probe("balanced")
	}
	if err != nil {
		c.Fail("spurious-error", "%v", err)
	}
	if lum {
		o := outs[0]
		a, b := 0.0, 0.0
		if n == 4 {
			a, b = minMax64(orig[3])
			expo += img[3].Exposure
		}
		if o.Exposure != expo {
			c.Fail("exposure", "with luminance: exposure %g, expected %g", o.Exposure, expo)
		}
		for j := range conv {
			want := float64(conv[j])
			if n == 4 && j >= 2*sz && b > a {
				v := (float64(orig[3][j-2*sz]) - a) / (b - a)
				_, _, want = colorful.LinearRgb(v, v, v).HSLuv()
			}
			if n == 4 && !(b > a) && j >= 2*sz {
				continue
			}
			if !(math.Abs(float64(o.Data[j])-want) <= 1e-4) {
				c.Fail("luminance", "%d channels: channel %d, pixel %d of value %g became %g, expected %g", n, j/sz, j%sz, conv[j], o.Data[j], want)
			}
		}
		c.Probe(fmt.Sprintf("luminance from %d channels", n))
	}
	c.Probe("combined")
}

// balanceModel computes the color balance in two passes.
func balanceModel(in []float32, w, h int, stars []star.Star, block int, border, skB, skD float64, sh, hi fits.RGB) (out []float64, verdict string) {
	n := w * h
	d := make([]float64, len(in))
	for i, v := range in {
		d[i] = float64(v)
	}
	ts, th := [3]float64{float64(sh.R), float64(sh.G), float64(sh.B)}, [3]float64{float64(hi.R), float64(hi.G), float64(hi.B)}
	set := func(cs, ch [3]float64) bool {
		ms, mh := (cs[0]+cs[1]+cs[2])/3, (ch[0]+ch[1]+ch[2])/3
		for k := 0; k < 3; k++ {
			if math.Abs(ch[k]-cs[k]) < 0.02 {
				return false
			}
			alpha := (th[k]*mh - ts[k]*ms) / (ch[k] - cs[k])
			if math.Abs(alpha) > 20 {
				return false
			}
			beta := ts[k]*ms - alpha*cs[k]
			for i := k * n; i < (k+1)*n; i++ {
				d[i] = math.Max(0, math.Min(1, alpha*d[i]+beta))
			}
		}
		return true
	}
	var cs, ch, mx [3]float64
	for k := 0; k < 3; k++ {
		s, q := 0.0, 0.0
		for _, v := range d[k*n : (k+1)*n] {
			s += v
		}
		s /= float64(n)
		for _, v := range d[k*n : (k+1)*n] {
			q += (v - s) * (v - s)
		}
		cs[k], ch[k] = s, s+3*math.Sqrt(q/float64(n))
	}
	if !set(cs, ch) {
		return nil, "ambiguous"
	}
	for k := 0; k < 3; k++ {
		mx[k] = math.Inf(-1)
		for _, v := range d[k*n : (k+1)*n] {
			mx[k] = math.Max(mx[k], v)
		}
	}
	// darkest block
	x0 := int(float32(w)*float32(border)) / block * block
	y0 := int(float32(h)*float32(border)) / block * block
	x1, y1 := (w-x0)/block*block, (h-y0)/block*block
	best, second := math.Inf(1), math.Inf(1)
	for y := y0; y < y1; y += block {
		for x := x0; x < x1; x += block {
			var m [3]float64
			for k := range m {
				for yy := y; yy < y+block; yy++ {
					for xx := x; xx < x+block; xx++ {
						m[k] += d[k*n+yy*w+xx]
					}
				}
				m[k] /= float64(block * block)
			}
			if l := m[0] + m[1] + m[2]; l < best {
				best, second = l, best
				cs = m
			} else if l < second {
				second = l
			}
		}
	}
	if math.IsInf(best, 1) {
		return nil, "error"
	}
	if second-best < 1e-5 {
		return nil, "ambiguous"
	}
	from, to := int(float32(len(stars))*float32(skB)), len(stars)-int(float32(len(stars))*float32(skD))
	cnt := 0
	ch = [3]float64{}
	amb := false
	for s := from; s < to; s++ {
		sx, sy := int(stars[s].Index)%w, int(stars[s].Index)/w
		rad := float64(stars[s].HFR * 0.75)
		ir := int(rad + 0.5)
		for y := sy - ir; y <= sy+ir; y++ {
			for x := sx - ir; x <= sx+ir; x++ {
				if x < 0 || y < 0 || x >= w || y >= h {
					continue
				}
				q := float64((x-sx)*(x-sx) + (y-sy)*(y-sy))
				lim := (rad + 0.01) * (rad + 0.01)
				if math.Abs(q-lim) < 1e-4 {
					amb = true
				}
				if q > lim {
					continue
				}
				use := true
				for k := 0; k < 3; k++ {
					v := d[k*n+y*w+x]
					if math.Abs(v-0.9*mx[k]) < 1e-4 {
						amb = true
					}
					if v >= 0.9*mx[k] {
						use = false
					}
				}
				if use {
					cnt++
					for k := 0; k < 3; k++ {
						ch[k] += d[k*n+y*w+x]
					}
				}
			}
		}
	}
	if amb {
		return nil, "ambiguous"
	}
	if cnt == 0 {
		return nil, "error"
	}
	for k := range ch {
		ch[k] /= float64(cnt)
	}
	if !set(cs, ch) {
		return nil, "ambiguous"
	}
	return d, ""
}
