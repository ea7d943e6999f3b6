package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P23: alignment of frames to the reference frame.
func init() {
	register(&Prop{ID: "P23", Quick: 10000, Rule: "Each case draws a star field, 1-6 frames of it which are shifted, rotated, flipped over the meridian or of another resolution, frames without stars, of another field or rejected, the reference frame, the fill mode, the number of triangle stars and the threshold, a second batch, thread count and schedule. Non-trivial: more than one frame and thread.", Run: runP23})
}

type p23frame struct {
	f        *fits.Image
	orig     []float32
	w, h     int
	kind     string // match, blind, other, reject, few
	a, b     float64
	tx, ty   float64
	s        float64
	outs     *fits.Image
	came     bool
	starPtr  *star.Star
	nCommon  int
	identity bool
}

// toRef maps a position in the frame to the reference field.
func (p *p23frame) toRef(x, y float64) (float64, float64) {
	x, y = x/p.s, y/p.s
	return p.a*x - p.b*y + p.tx, p.b*x + p.a*y + p.ty
}

func (p *p23frame) fromRef(x, y float64) (float64, float64) {
	x, y = x-p.tx, y-p.ty
	return (p.a*x + p.b*y) * p.s, (-p.b*x + p.a*y) * p.s
}

func runP23(c *Case) {
	n := c.Int("n", 1, 6)
	cpu := c.Int("cpu", 1, 6)
	r := c.Rand("data")
	W, H := 60+r.N(80), 60+r.N(60)
	ns := 6 + r.N(10)
	far := c.Bool("far", 1, 40) // frames which show a small part of a rich field
	if far {
		n, ns, W, H = 2, 24+r.N(2), W+60, H+60
	}
	type pos struct{ x, y, v float64 }
	field := func() []pos {
		var st []pos
		for t := 0; len(st) < ns && t < 4000; t++ {
			x, y := 2+r.F()*float64(W-5), 2+r.F()*float64(H-5)
			ok := true
			for _, s := range st {
				if math.Hypot(s.x-x, s.y-y) < float64(H)/8 {
					ok = false
				}
			}
			if ok {
				st = append(st, pos{x, y, 1000 - 20*float64(len(st))})
			}
		}
		return st
	}
	sky := field()
	K := c.Pick("k", 0, 5, 8, 8, 12, 20, 50)
	thr := float32([]float64{0.05, 1, 1, 5, 0}[c.Pick("thr", 0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4)])
	if far && K > 0 {
		K = 25
	}
	oob := post.OutOfBoundsMode(c.Pick("oob", 0, 1, 2))
	haveHisto := c.Bool("histo", 7, 8)
	haveRef := c.Bool("ref", 9, 10)
	ls := c.Pick("ls", 1, 1, 1, 2)
	twice := c.Bool("second", 1, 3)
	nb := 1
	if twice {
		nb = 2
	}
	var fr [2][]*p23frame
	for b := 0; b < nb; b++ {
		for i := 0; i < n; i++ {
			p := &p23frame{w: W, h: H, a: 1, s: 1}
			switch k := r.N(12); {
			case k < 8:
				p.kind = "match"
				p.tx, p.ty = (r.F()*2-1)*float64(W)/6, (r.F()*2-1)*float64(H)/6
				if far {
					p.tx, p.ty = (0.55+0.2*r.F())*float64(W), p.ty*0.2
				}
				switch r.N(5) {
				case 0: // rotated
					th := (r.F()*2 - 1) * [2]float64{0.2, 0.7}[r.N(2)]
					p.a, p.b = math.Cos(th), math.Sin(th)
				case 1: // turned by 180 degrees
					p.a, p.b = -1, 0
					p.tx, p.ty = p.tx+float64(W-1), p.ty+float64(H-1)
				case 2:
					p.tx, p.ty = float64(int(p.tx)), float64(int(p.ty))
				case 3: // along one axis only
					if p.ty = float64(int(p.ty)); r.N(2) == 0 {
						p.tx, p.ty = float64(int(p.tx)), 0
					} else {
						p.tx = 0
					}
					if r.N(2) == 0 { // little enough to keep all stars within the frame
						p.tx, p.ty = math.Mod(p.tx, 4), math.Mod(p.ty, 4)
					}
				}
				if r.N(5) == 0 {
					p.s = []float64{0.5, 2}[r.N(2)]
					p.w, p.h = int(float64(W)*p.s), int(float64(H)*p.s)
				} else if r.N(6) == 0 {
					p.h += r.N(20) - 5
				}
			case k < 9:
				p.kind = "blind"
			case k < 10:
				p.kind = "other"
			case k < 11:
				p.kind = "few"
			default:
				p.kind = "reject"
			}
			d := make([]float32, p.w*p.h)
			base := float32(100 + 20*i + 10*b)
			for j := range d {
				u := r.F()
				if ls == 2 { // median below the mean
					u *= u * u * u
				}
				d[j] = base + float32(40*u)
			}
			p.orig = clone32(d)
			f := mkImg(i+b*n, p.w, p.h, d)
			f.Exposure = float32(1 + r.N(100))
			f.HFR = float32(1 + r.F())
			src := sky
			if p.kind == "other" {
				src = field()
			}
			jit := 0.1 * r.F() * float64(r.N(3)) / 2
			if p.kind != "blind" && p.kind != "reject" {
				for q, s := range src {
					if p.kind == "few" && q > 1 {
						break
					}
					x, y := p.fromRef(s.x, s.y)
					if x < 0 || y < 0 || x > float64(p.w-1) || y > float64(p.h-1) {
						continue
					}
					f.Stars = append(f.Stars, star.Star{Index: int32(int(y)*p.w + int(x)), Value: float32(s.v), X: float32(x + jit*(r.F()-0.5)), Y: float32(y + jit*(r.F()-0.5)), Mass: float32(s.v), HFR: 2})
				}
			}
			p.nCommon = len(f.Stars)
			if len(f.Stars) > 0 {
				p.starPtr = &f.Stars[0]
			}
			p.f = f
			fr[b] = append(fr[b], p)
		}
	}
	// the reference is a frame of the first batch showing the complete field
	ri := c.Int("refidx", 0, n-1)
	rp := fr[0][ri]
	rp.kind, rp.a, rp.b, rp.tx, rp.ty, rp.s, rp.w, rp.h = "ref", 1, 0, 0, 0, 1, W, H
	{
		d := make([]float32, W*H)
		for j := range d {
			d[j] = 300 + float32(40*r.F())
		}
		rp.orig = clone32(d)
		f := mkImg(ri, W, H, d)
		f.Exposure, f.HFR = rp.f.Exposure, rp.f.HFR
		for _, s := range sky {
			f.Stars = append(f.Stars, star.Star{Index: int32(int(s.y)*W + int(s.x)), Value: float32(s.v), X: float32(s.x), Y: float32(s.y), Mass: float32(s.v), HFR: 2})
		}
		rp.f = f
		rp.nCommon = len(f.Stars)
		rp.starPtr = &f.Stars[0]
	}
	refLoc := float32(4242)
	var errs [2]error
	var nout [2]int
	c.Sim("align", Opt{Explore: true, NumCPU: cpu, LS: ls}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		if haveHisto {
			ctx.MatchHisto = stats.NewStats([]float32{refLoc, refLoc}, 2)
		}
		var seq []ops.Operator
		if haveRef {
			seq = append(seq, ref.NewOpSelectReference(ref.SRAlign, fmt.Sprint(ri), pre.NewOpStarDetect(0, 0, 0, 0, "")))
		}
		seq = append(seq, post.NewOpAlign(int32(K), thr, oob))
		op := ops.NewOpSequence(seq...)
		for b := 0; b < nb; b++ {
			var ins []ops.Promise
			for _, p := range fr[b] {
				p := p
				ins = append(ins, func() (*fits.Image, error) {
					vsim.Point()
					if p.kind == "reject" {
						return nil, nil
					}
					return p.f, nil
				})
			}
			ps, err := op.MakePromises(ins, ctx)
			if err != nil {
				errs[b] = err
				break
			}
			for i := range ps {
				i, q, b := i, ps[i], b
				ps[i] = func() (*fits.Image, error) {
					o, err := q()
					fr[b][i].outs, fr[b][i].came = o, true
					vsim.Point()
					return o, err
				}
			}
			outs, err := ops.MaterializeAll(ps, ctx.MaxThreads, false)
			nout[b], errs[b] = len(outs), err
			if err != nil {
				break
			}
		}
	})
	if n > 1 && cpu > 1 {
		c.Nontrivial()
	}
	wantErr := ""
	if K > 0 && !haveRef {
		for _, p := range fr[0] {
			if p.kind != "reject" {
				wantErr = "no alignment reference"
			}
		}
	}
	if K > 0 && haveRef && oob == post.OOBModeRefLocation && !haveHisto {
		for b := 0; b < nb; b++ {
			for _, p := range fr[b] {
				if p.kind != "reject" && p.kind != "ref" && len(p.f.Stars) > 0 {
					wantErr = "no histogram reference to fill in pixels"
				}
			}
		}
	}
	failed := errs[0] != nil || errs[1] != nil
	if wantErr != "" && !failed {
		c.Fail("error-lost", "%s, but the job succeeded", wantErr)
	}
	if failed {
		if wantErr == "" {
			// a transformation without inverse may legitimately be reported, for frames which show another field
			for b := range fr {
				for _, p := range fr[b] {
					if p.kind == "other" {
						c.Probe("error with a foreign frame")
						return
					}
				}
			}
			c.Fail("spurious-error", "%v %v", errs[0], errs[1])
		}
		c.Probe(wantErr)
		return
	}
	for b := 0; b < nb; b++ {
		cnt := 0
		for i, p := range fr[b] {
			if !p.came {
				c.Fail("results", "batch %d: frame %d was not processed", b, i)
			}
			if p.outs != nil {
				cnt++
			}
			if p.kind == "reject" {
				if p.outs != nil {
					c.Fail("results", "batch %d: rejected frame %d came back", b, i)
				}
				continue
			}
			if j := bitsEq(p.f.Data, p.orig); j >= 0 {
				c.Fail("input-changed", "batch %d: frame %d changed at %d while being aligned", b, i, j)
			}
			if K <= 0 || p.kind == "ref" {
				if p.outs == nil || p.outs.Naxisn[0] != int32(p.w) || p.outs.Naxisn[1] != int32(p.h) {
					c.Fail("identity", "batch %d: %s frame %d with k=%d: was dropped or resized", b, p.kind, i, K)
				}
				if j := bitsEq(p.outs.Data, p.orig); j >= 0 {
					c.Fail("identity", "batch %d: %s frame %d with k=%d: pixel %d changed", b, p.kind, i, K, j)
				}
				c.Probe("unchanged")
				continue
			}
			// is the frame certain to be recognised?
			need := p.kind == "match" && p.nCommon >= 7 && p.nCommon*4 >= len(sky) && K >= len(sky) && thr >= 1
			if p.outs == nil {
				if need {
					c.Fail("not-aligned", "batch %d: frame %d shows %d of the %d stars of the reference, rotation %.3f,%.3f shift %.2f,%.2f scale %g, k %d, but was rejected", b, i, p.nCommon, len(sky), p.a, p.b, p.tx, p.ty, p.s, K)
				}
				c.Probe("rejected " + p.kind)
				continue
			}
			o := p.outs
			if p.kind == "blind" || p.kind == "few" || len(p.f.Stars) < 3 {
				c.Fail("unaligned-frame", "batch %d: frame %d has %d stars, but was let through", b, i, len(p.f.Stars))
			}
			if o.ID != p.f.ID || o.Exposure != p.f.Exposure || o.HFR != p.f.HFR {
				c.Fail("metadata", "batch %d: frame %d: ID %d exposure %g HFR %g became %d, %g, %g", b, i, p.f.ID, p.f.Exposure, p.f.HFR, o.ID, o.Exposure, o.HFR)
			}
			if len(o.Naxisn) != 2 || o.Naxisn[0] != int32(W) || o.Naxisn[1] != int32(H) || len(o.Data) != W*H {
				c.Fail("size", "batch %d: frame %d aligned to the %dx%d reference has size %v", b, i, W, H, o.Naxisn)
			}
			if !(p.f.Residual <= thr) {
				c.Fail("threshold", "batch %d: frame %d with residual %g above the threshold %g was let through", b, i, p.f.Residual, thr)
			}
			t := p.f.Trans
			det := float64(t.A)*float64(t.E) - float64(t.B)*float64(t.D)
			if p.kind == "match" && need {
				for _, s := range sky {
					x, y := p.fromRef(s.x, s.y)
					if x < 0 || y < 0 || x > float64(p.w-1) || y > float64(p.h-1) {
						continue
					}
					tx := float64(t.A)*x + float64(t.B)*y + float64(t.C)
					ty := float64(t.D)*x + float64(t.E)*y + float64(t.F)
					if d := math.Hypot(tx-s.x, ty-s.y); d > 0.5 {
						c.Fail("misaligned", "%v, %d of %d stars: batch %d: frame %d: star at %.2f,%.2f is moved to %.2f,%.2f, %.2f pixels off the reference position (residual %g)", t, p.nCommon, len(sky), b, i, x, y, tx, ty, d, p.f.Residual)
					}
				}
				c.Probe("aligned")
				if p.nCommon*3 < len(sky) {
					c.Probe("aligned by a part of the field")
				}
			}
			fill, fillTol := math.NaN(), 1e-3
			switch oob {
			case post.OOBModeRefLocation:
				fill = float64(refLoc)
			case post.OOBModeOwnLocation:
				fill, _ = meanStd64(p.orig)
				if ls == 2 { // the median of a random sample
					v := clone32(p.orig)
					sort.Slice(v, func(a, b int) bool { return v[a] < v[b] })
					lo, hi := float64(v[len(v)*46/100]), float64(v[len(v)*54/100])
					fill, fillTol = (lo+hi)/2, (hi-lo)/2+1e-3
				}
			}
			cond := math.Max(math.Max(math.Abs(float64(t.A)), math.Abs(float64(t.B))), math.Max(math.Abs(float64(t.D)), math.Abs(float64(t.E)))) / math.Abs(det)
			tmag := math.Abs(float64(t.C)) + math.Abs(float64(t.F)) + float64(W+H)
			e := 4e-6 * (1 + cond*cond) * tmag // bound of the rounding of the source position
			if e > 0.05 {
				c.Probe("ill-conditioned")
				continue
			}
			inside := 0
			for row := 0; row < H; row++ {
				for col := 0; col < W; col++ {
					dx, dy := float64(col)-float64(t.C), float64(row)-float64(t.F)
					x := (float64(t.E)*dx - float64(t.B)*dy) / det
					y := (-float64(t.D)*dx + float64(t.A)*dy) / det
					got := float64(o.Data[row*W+col])
					isFill := got == fill || math.IsNaN(got) && math.IsNaN(fill) || oob == post.OOBModeOwnLocation && math.Abs(got-fill) < fillTol
					mx, my := float64(p.w-1), float64(p.h-1)
					if x < -e || y < -e || x > mx+e || y > my+e {
						if !isFill {
							c.Fail("fill", "batch %d: frame %d, pixel %d,%d lies outside the frame (%.3f,%.3f of %dx%d), but is %g, expected %g", b, i, col, row, x, y, p.w, p.h, got, fill)
						}
						continue
					}
					if x < e || y < e || x > mx-e || y > my-e {
						if isFill {
							continue
						}
					}
					inside++
					xl, yl := math.Floor(x), math.Floor(y)
					xl, yl = math.Max(0, math.Min(xl, mx-1)), math.Max(0, math.Min(yl, my-1))
					xr, yr := x-xl, y-yl
					q := int(yl)*p.w + int(xl)
					v := (float64(p.orig[q])*(1-xr)+float64(p.orig[q+1])*xr)*(1-yr) + (float64(p.orig[q+p.w])*(1-xr)+float64(p.orig[q+p.w+1])*xr)*yr
					if !(math.Abs(got-v) <= 100*e+1e-3) {
						c.Fail("pixels", "batch %d: frame %d, pixel %d,%d shows %.3f,%.3f of the frame: expected %g, got %g", b, i, col, row, x, y, v, got)
					}
				}
			}
			if inside > 0 {
				c.Probe("projection checked " + p.kind)
			}
		}
		if cnt != nout[b] {
			c.Fail("results", "batch %d: %d results instead of %d", b, nout[b], cnt)
		}
	}
}
