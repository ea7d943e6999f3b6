package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P28: automatic stretching.
func init() {
	register(&Prop{ID: "P28", Quick: 4500, Rule: "Each case draws 1-4 images with a background, gradient and stars, target location and scale, monochrome or on the luminance of a color image, estimator, thread count and schedule. Non-trivial: an image was stretched.", Run: runP28})
}

func runP28(c *Case) {
	n := c.Int("n", 1, 4)
	color := c.Bool("color", 1, 3)
	tl := []float32{0.02, 0.05, 0.1, 0.25}[c.Int("loc", 0, 3)]
	ts := []float32{0.002, 0.004, 0.02, 0.05}[c.Int("scale", 0, 3)]
	ls := c.Pick("ls", 1, 2, 3)
	off := c.Bool("off", 1, 30)
	if off {
		tl, ts = 0, 0
	}
	big := c.Bool("big", 1, 40)
	in := make([][]float32, n)
	w, h := make([]int, n), make([]int, n)
	for i := range in {
		r := c.Rand(fmt.Sprintf("img%d", i))
		w[i], h[i] = 8+r.N(40), 8+r.N(40)
		if big {
			w[i], h[i] = 100+r.N(150), 100+r.N(150)
		}
		bg := math.Exp(math.Log(0.0005) + r.F()*math.Log(1000))
		no := bg * math.Exp(math.Log(0.003)+r.F()*math.Log(100))
		grad := []float64{0, 0, bg * r.F() * 0.2}[r.N(3)]
		d := make([]float32, w[i]*h[i])
		for k := range d {
			v := bg + no*r.Norm() + grad*float64(k%w[i])/float64(w[i])
			if r.N(40) == 0 {
				v += r.F() * r.F()
			}
			d[k] = float32(math.Max(0, math.Min(1, v)))
		}
		if r.N(3) > 0 {
			d[r.N(len(d))] = 1
		}
		if color {
			d = append(append(randData(r, len(d), 0, 360), randData(r, len(d), 0, 1)...), d...)
		}
		in[i] = d
	}
	outs := make([]*fits.Image, n)
	before, after := make([]ls2, n), make([]ls2, n)
	measure := func(f *fits.Image) ls2 {
		d := f.Data
		if color && f.Naxisn[1]*f.Naxisn[0] < int32(len(d)) {
			d = d[2*len(d)/3:]
		}
		g := mkImg(0, int(f.Naxisn[0]), len(d)/int(f.Naxisn[0]), clone32(d))
		return ls2{float64(g.Stats.Location()), float64(g.Stats.Scale())}
	}
	log := vsim.NewLogSink()
	var err error
	c.Sim("stretch", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 5), LS: ls}, func() {
		var ins []ops.Promise
		for i := range in {
			i := i
			ins = append(ins, func() (*fits.Image, error) {
				if color {
					return mkImg3(i, w[i], h[i], clone32(in[i])), nil
				}
				return mkImg(i, w[i], h[i], clone32(in[i])), nil
			})
		}
		var op ops.Operator = stretch.NewOpStretchIterative(tl, ts)
		if color {
			op = hsl.NewOpHSLStretchIterative(tl, ts)
		}
		var res []*fits.Image
		res, err = runJob(ops.NewOpSequence(op), ins, newCtx(log, 1000), false)
		for _, g := range res {
			outs[g.ID] = g
		}
		for i := range in {
			before[i] = measure(mkImgN(w[i], h[i], in[i]))
			if outs[i] != nil {
				after[i] = measure(outs[i])
			}
		}
	})
	if err != nil {
		c.Fail("error", "%v", err)
	}
	if off {
		for i := range in {
			if outs[i] == nil || bitsEq(in[i], outs[i].Data) >= 0 {
				c.Fail("off", "without targets for location and scale, image %d changed", i)
			}
		}
		c.Probe("off")
		return
	}
	models := make([][]float32, n)
	tie := make([]bool, n)
	c.Sim("model", Opt{NumCPU: 1, LS: ls}, func() {
		for i := range in {
			d := in[i]
			if color {
				d = d[2*len(d)/3:]
			}
			models[i], tie[i] = stretchModel(d, w[i], float64(tl), float64(ts), measure)
		}
	})
	for i := range in {
		g := outs[i]
		if g == nil {
			c.Fail("lost", "image %d is missing", i)
		}
		who := fmt.Sprintf("image %d (location %.5f scale %.5f, to %.3f and %.3f, estimator %d, color %v), now %.5f and %.5f", i, before[i].loc, before[i].scale, tl, ts, ls, color, after[i].loc, after[i].scale)
		a, b := in[i], g.Data
		if len(a) != len(b) {
			c.Fail("lost", "%s: %d of %d pixels", who, len(b), len(a))
		}
		if color {
			q := len(a) / 3 * 2
			if k := bitsEq(a[:q], b[:q]); k >= 0 {
				c.Fail("color", "%s: hue or saturation %d changed from %g to %g", who, k, a[k], b[k])
			}
			a, b = a[q:], b[q:]
		}
		idx := make([]int, len(a))
		for k := range idx {
			idx[k] = k
		}
		sort.Slice(idx, func(x, y int) bool { return a[idx[x]] < a[idx[y]] })
		for k := range idx {
			v := b[idx[k]]
			if !(v >= -1e-6 && v <= 1.00001) {
				c.Fail("range", "%s: pixel %g became %g", who, a[idx[k]], v)
			}
			if k > 0 {
				u := b[idx[k-1]]
				if a[idx[k]] == a[idx[k-1]] && u != v {
					c.Fail("order", "%s: equal pixels %g became %g and %g", who, a[idx[k]], u, v)
				}
				if v < u-1e-6*u {
					c.Fail("order", "%s: pixels %g and %g became %g and %g", who, a[idx[k-1]], a[idx[k]], u, v)
				}
			}
			if a[idx[k]] == 1 && math.Abs(float64(v)-1) > 1e-4 {
				c.Fail("white", "%s: white became %g", who, v)
			}
		}
		changed := bitsEq(a, b) >= 0
		T, S := float64(tl), float64(ts)
		if before[i].scale >= S*1.0001 && changed {
			c.Fail("needless", "%s: changed although the scale is reached", who)
		}
		if before[i].scale >= S*0.9999 {
			continue
		}
		if tie[i] {
			c.Probe("undecided")
		} else {
			for k := range b {
				if x, y := float64(b[k]), float64(models[i][k]); math.Abs(x-y) > 0.05*math.Max(x, y)+0.006 {
					c.Fail("value", "%s: pixel %g became %g, expected %g", who, a[k], x, y)
				}
			}
			if !changed && bitsEq(a, models[i]) >= 0 {
				c.Fail("unstretched", "%s: not stretched", who)
			}
			c.Probe("compared")
		}
		warned := false
		for _, m := range log.Msgs {
			warned = warned || strings.HasPrefix(m, fmt.Sprintf("%d: Warning: did not converge", i))
		}
		over := after[i].scale / S
		key := "scale reached"
		switch {
		case warned:
			key = "not converged"
		case over < 0.99:
			key = "scale not reachable"
		}
		if math.Abs(after[i].loc-T) < 0.02*T {
			key += " at location"
		}
		c.Probe(key)
		if changed {
			c.Nontrivial()
		}
	}
}

type ls2 struct{ loc, scale float64 }

func mkImgN(w, h int, d []float32) *fits.Image {
	if len(d) > w*h {
		return mkImg3(0, w, h, d)
	}
	return mkImg(0, w, h, d)
}

// stretchModel brightens by the gamma that would yield the target scale once the black point is
// shifted, then shifts the black point, until the scale is reached or no gamma helps.
// tie reports a decision too close to call.
func stretchModel(d []float32, w int, T, S float64, measure func(*fits.Image) ls2) (out []float32, tie bool) {
	out = clone32(d)
	close := func(a, b float64) bool { return math.Abs(a-b) < 2e-4*b }
	for k := 0; k < 50; k++ {
		m := measure(mkImg(0, w, len(out)/w, clone32(out)))
		if close(m.scale, S) || m.loc > 1.005*T && math.Abs(m.scale-S) < 0.05*S || close(m.loc, T*0.99) || close(m.loc, T*1.01) {
			tie = true
		}
		if k == 0 && (m.scale < S/12 || S > T/2) { // small differences are amplified too much
			tie = true
		}
		if m.scale >= S {
			return
		}
		if m.loc <= T*1.01 {
			dist := func(g float64) float64 {
				lo, mid, hi := math.Pow(m.loc-m.scale, 1/g), math.Pow(m.loc, 1/g), math.Pow(m.loc+m.scale, 1/g)
				black := (T - mid) / (T - 1)
				f := func(v float64) float64 { return math.Max(0, (v-black)/(1-black)) }
				return math.Abs(S - (f(hi)-f(lo))/2)
			}
			best, bd := 1.0, math.Abs(S-m.scale)
			for i := 0; i <= 400; i++ {
				g := 1 + float64(i)*0.01
				if x := dist(g); x < bd {
					best, bd = g, x
				}
			}
			if best > 1.001 && best < 1.025 {
				tie = true
			}
			if best <= 1.01 {
				return
			}
			for i, v := range out {
				out[i] = float32(math.Pow(float64(v), 1/best))
			}
		} else {
			black := (T - m.loc) / (T - 1)
			for i, v := range out {
				out[i] = float32(math.Max(0, (float64(v)-black)/(1-black)))
			}
		}
	}
	return
}
