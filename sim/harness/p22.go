package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P22: histogram matching against one fixed reference.
func init() {
	register(&Prop{ID: "P22", Quick: 60000, Rule: "Each case draws 1-8 frames of different brightness, contrast and size, the matching mode, the way the reference is selected, rejected frames, a further operation that changes the frames afterwards, a second batch matched to the same reference, thread count and schedule. Non-trivial: more than one frame and thread.", Run: runP22})
}

func runP22(c *Case) {
	n := c.Int("n", 1, 8)
	cpu := c.Int("cpu", 1, 6)
	r := c.Rand("data")
	mode := post.HistoNormMode(c.Pick("mode", 0, 1, 1, 2, 2, 2, 3))
	twice := c.Bool("second", 1, 2)
	after := c.Bool("after", 1, 2)
	shift := 0.0
	if mode != post.HNMLocBlack && c.Bool("negative", 1, 4) { // calibrated frames may be below zero
		shift = -500 - 700*r.F()
	}
	nb := 1
	if twice {
		nb = 2
	}
	var img [2][]*fits.Image
	var orig [2][][]float32
	var rej [2][]bool
	for b := 0; b < nb; b++ {
		for i := 0; i < n; i++ {
			w, h := 3+r.N(20), 3+r.N(20)
			if r.N(80) == 0 {
				w, h = w*16, h*16+1
			}
			lvl := 100 + 900*r.F()
			spread := lvl * (0.05 + 0.4*r.F())
			if mode == post.HNMLocBlack {
				lvl = 0.2 + 0.5*r.F()
				spread = lvl * (0.1 + 0.4*r.F())
			}
			d := make([]float32, w*h)
			for j := range d {
				d[j] = float32(shift + lvl + spread*r.Norm()*0.5)
				if mode == post.HNMLocBlack {
					d[j] = float32(math.Min(1, math.Max(0, float64(d[j]))))
				}
			}
			img[b] = append(img[b], mkImg(i+b*n, w, h, d))
			orig[b] = append(orig[b], clone32(d))
			rej[b] = append(rej[b], r.N(8) == 0)
		}
	}
	sel := c.PickS("sel", "idx", "idx", "idx", "idx", "idx", "idx", "idx", "%location", "%starsHFR", "none", "empty")
	if img[0] == nil {
		return
	}
	key := ""
	var left []int
	for i := range rej[0] {
		if !rej[0][i] {
			left = append(left, i)
		}
	}
	if len(left) == 0 {
		rej[0][0] = false
		left = []int{0}
	}
	want := -1
	switch sel {
	case "idx":
		want = left[c.Int("idx", 0, n-1)%len(left)]
		key = fmt.Sprint(want)
	case "%starsHFR": // no frame has stars: the first one
		want, key = left[0], sel
	case "%location":
		key = sel
		var l []float64
		for _, i := range left {
			m, _ := meanStd64(orig[0][i])
			l = append(l, m)
		}
		s := append([]float64{}, l...)
		sort.Float64s(s)
		md := s[len(s)/2]
		if len(s)%2 == 0 {
			md = (s[len(s)/2-1] + md) / 2
		}
		bd := math.Inf(1)
		tie := false
		for j, i := range left {
			d := math.Abs(l[j] - md)
			if math.Abs(d-bd) < 1e-4*math.Abs(md) {
				tie = true
			}
			if d < bd {
				if d < bd-1e-4*math.Abs(md) {
					tie = false
				}
				want, bd = i, d
			}
		}
		if tie {
			c.Probe("two frames equally close to the median")
			return
		}
	}
	var outs [2][]*fits.Image
	var errs [2]error
	var mloc, mscale [2]float32
	res := c.Sim("match", Opt{Explore: true, NumCPU: cpu, LS: 1}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		var seq []ops.Operator
		if sel != "none" {
			seq = append(seq, ref.NewOpSelectReference(ref.SRHisto, key, pre.NewOpStarDetect(0, 0, 0, 0, "")))
		}
		seq = append(seq, post.NewOpMatchHistogram(mode))
		if after {
			seq = append(seq, newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
				vsim.Point()
				for j := range f.Data {
					f.Data[j] = f.Data[j]*3 + 7
				}
				if f.ID%2 == 0 {
					f.Stats.UpdateCachedWith(3, 7)
				} else {
					f.Stats.Clear()
				}
				vsim.Point()
				return f, nil
			}))
		}
		op := ops.NewOpSequence(seq...)
		for b := 0; b < nb; b++ {
			var ins []ops.Promise
			for i := range img[b] {
				i, b := i, b
				ins = append(ins, func() (*fits.Image, error) {
					vsim.Point()
					if rej[b][i] {
						return nil, nil
					}
					return img[b][i], nil
				})
			}
			outs[b], errs[b] = runJob(op, ins, ctx, false)
			if errs[b] != nil {
				break
			}
			if ctx.MatchHisto != nil {
				mloc[b], mscale[b] = ctx.MatchHisto.Location(), ctx.MatchHisto.Scale()
			}
		}
	})
	_ = res
	if want < 0 && mode != post.HNMNone {
		if errs[0] == nil {
			c.Fail("error-lost", "mode %d without a reference succeeded", mode)
		}
		c.Probe("missing reference reported")
		return
	}
	if errs[0] != nil || errs[1] != nil {
		c.Fail("spurious-error", "%v %v", errs[0], errs[1])
	}
	if n > 1 && cpu > 1 {
		c.Nontrivial()
	}
	var rl, rs float64
	if want >= 0 {
		rl, rs = meanStd64(orig[0][want])
		for b := 0; b < nb; b++ {
			if !near(mloc[b], float32(rl), 1e-5, 0) || !near(mscale[b], float32(rs), 1e-3, 0) {
				c.Fail("reference-changed", "reference frame %d has location %g and scale %g, but after batch %d the reference is %g and %g", want, rl, rs, b, mloc[b], mscale[b])
			}
		}
	}
	for b := 0; b < nb; b++ {
		k := 0
		for i, f := range img[b] {
			if rej[b][i] {
				continue
			}
			if k >= len(outs[b]) || outs[b][k] != f {
				c.Fail("results", "batch %d: frame %d is not result %d of %d", b, i, k, len(outs[b]))
			}
			k++
			ol, os := meanStd64(orig[b][i])
			for j, x32 := range orig[b][i] {
				x := float64(x32)
				y, tol := x, 0.0
				switch mode {
				case post.HNMLocation:
					y = x * rl / ol
					tol = 2e-5 * math.Abs(y)
				case post.HNMLocScale:
					y = (x-ol)*rs/os + rl
					tol = 5e-4*math.Abs(y-rl) + 3e-5*(math.Abs(rl)+math.Abs(ol*rs/os))
				case post.HNMLocBlack:
					black := (rl - ol) / (rl - 1)
					y = math.Max(0, (x-black)/(1-black))
					tol = 1e-4 + 1e-4*math.Abs(y)/(1-black)
				}
				if after {
					y, tol = y*3+7, tol*3+1e-6*(math.Abs(y)*3+7)
				}
				if !(math.Abs(float64(f.Data[j])-y) <= tol) {
					c.Fail("pixels", "mode %d, batch %d, frame %d (location %g, scale %g), reference %g, %g: pixel %d of value %g became %g, expected %g", mode, b, i, ol, os, rl, rs, j, x, f.Data[j], y)
				}
			}
		}
		if k != len(outs[b]) {
			c.Fail("results", "batch %d: %d results of %d frames", b, len(outs[b]), k)
		}
	}
	c.Probe(fmt.Sprintf("mode %d matched", mode))
}
