package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
	"golang.org/x/image/tiff"
)

// P27: the star list of a frame.
func init() {
	register(&Prop{ID: "P27", Quick: 30000, Rule: "Each case draws 1-4 frames with rendered stars inside and at the border, faint stars, hot and undefined pixels, noise and detection settings, thread count and schedule; star lists are compared with the pixels and the rendered sky. Non-trivial: a frame has stars.", Run: runP27})
}

type detFrame struct {
	w, h  int
	data  []float32
	stars []starPos
	hot   [][2]int
	odd   [][2]int // undefined pixels
	noise float64
	bg    float64
	diffs []float32 // samples of the difference to the local median
}

func drawDetFrame(c *Case, nm string, radius int) *detFrame {
	r := c.Rand(nm)
	f := &detFrame{w: 24 + r.N(90), h: 24 + r.N(90)}
	long := c.Pick(nm+".long", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2)
	switch long { // beyond one cell of the grid in which overlaps are searched
	case 1:
		f.w, f.h = 250+r.N(50), 24+r.N(20)
	case 2:
		f.h, f.w = 250+r.N(50), 24+r.N(20)
	}
	wide := long == 0 && c.Bool(nm+".wide", 1, 60)
	if wide {
		f.w, f.h = 200+r.N(250), 200+r.N(250)
	}
	f.bg, f.noise = []float64{0.02, 0.1, 0.4}[r.N(3)], []float64{0.0003, 0.001, 0.003}[r.N(3)]
	d := make([]float64, f.w*f.h)
	for i := range d {
		d[i] = f.bg + f.noise*r.Norm()
	}
	n := c.Int(nm+".stars", 0, 12)
	if wide {
		n = n*8 + 4
	}
	close := r.N(4) == 0
	for k := 0; k < n; k++ {
		s := starPos{X: r.F() * float64(f.w-1), Y: r.F() * float64(f.h-1), S: 0.8 + r.F()*(float64(radius)/3.2-0.8)}
		switch r.N(6) {
		case 0: // at the border
			if r.N(2) == 0 {
				s.X = []float64{0, float64(f.w - 1)}[r.N(2)] + r.F()*2 - 1
			} else {
				s.Y = []float64{0, float64(f.h - 1)}[r.N(2)] + r.F()*2 - 1
			}
		}
		if long > 0 && r.N(4) > 0 {
			close = true
			if v := 255.5 + float64(radius)*(r.F()*2-1); long == 1 {
				s.X = v
			} else {
				s.Y = v
			}
		}
		s.A = f.noise * math.Exp(math.Log(3)+r.F()*math.Log(300))
		ok := true
		for _, t := range f.stars {
			if !close && math.Hypot(s.X-t.X, s.Y-t.Y) < float64(2*radius+4) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		f.stars = append(f.stars, s)
		rad := int(6*s.S) + 1
		for y := int(s.Y) - rad; y <= int(s.Y)+rad; y++ {
			for x := int(s.X) - rad; x <= int(s.X)+rad; x++ {
				if x >= 0 && y >= 0 && x < f.w && y < f.h {
					ex, ey := float64(x)-s.X, float64(y)-s.Y
					d[y*f.w+x] += s.A * math.Exp(-(ex*ex+ey*ey)/(2*s.S*s.S))
				}
			}
		}
	}
	f.data = make([]float32, len(d))
	for i, v := range d {
		f.data[i] = float32(v)
	}
	for k := c.Pick(nm+".hot", 0, 0, 1, 3); k > 0; k-- {
		x, y := 2+r.N(f.w-4), 2+r.N(f.h-4)
		f.data[y*f.w+x] += float32(f.noise * (30 + 500*r.F()))
		f.hot = append(f.hot, [2]int{x, y})
	}
	for k := c.Pick(nm+".odd", 0, 0, 0, 2); k > 0; k-- {
		x, y := r.N(f.w), r.N(f.h)
		f.data[y*f.w+x] = []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[r.N(3)]
		f.odd = append(f.odd, [2]int{x, y})
	}
	for k := 0; k < 200; k++ {
		f.diffs = append(f.diffs, float32(f.noise*r.Norm()))
	}
	return f
}

func (f *detFrame) px(x, y int) float64 {
	if x < 0 || y < 0 || x >= f.w || y >= f.h {
		return math.NaN()
	}
	return float64(f.data[y*f.w+x])
}

func posNum(v float64) float64 {
	if v > 0 && v <= math.MaxFloat32 {
		return v
	}
	return 0
}

// flux returns mass and half flux radius around a pixel, and the mass and pixel counts of the core.
func (f *detFrame) flux(cx, cy, radius int, loc float64) (mass, hfr, inner float64, nAll, nInner int, edge bool) {
	mom := 0.0
	for y := -radius; y <= radius; y++ {
		for x := -radius; x <= radius; x++ {
			if x*x+y*y > radius*radius {
				continue
			}
			v := posNum(f.px(cx+x, cy+y) - loc)
			mass += v
			mom += v * math.Sqrt(float64(x*x+y*y))
			nAll++
		}
	}
	hfr = mom / math.Max(mass, 1e-8)
	lim := math.Ceil(hfr * hfr)
	edge = math.Abs(hfr*hfr-math.Round(hfr*hfr)) < 1e-3 || math.Abs(hfr-math.Round(hfr)) < 1e-3
	ir := int(math.Ceil(hfr))
	for y := -ir; y <= ir; y++ {
		for x := -ir; x <= ir; x++ {
			if float64(x*x+y*y) <= lim {
				inner += posNum(f.px(cx+x, cy+y) - loc)
				nInner++
			}
		}
	}
	return
}

// center returns the center of mass of the box around a pixel.
func (f *detFrame) center(cx, cy, radius int, thr float64) (float64, float64) {
	m, mx, my := 0.0, 0.0, 0.0
	for y := -radius; y <= radius; y++ {
		for x := -radius; x <= radius; x++ {
			v := posNum(f.px(cx+x, cy+y) - thr)
			m += v
			mx += v * float64(x)
			my += v * float64(y)
		}
	}
	if m == 0 {
		return float64(cx), float64(cy)
	}
	return float64(cx) + mx/m, float64(cy) + my/m
}

// median3 is the median of the 3x3 neighborhood; ok is false at the border.
func (f *detFrame) median3(cx, cy int) (float64, bool) {
	var v []float64
	for y := -1; y <= 1; y++ {
		for x := -1; x <= 1; x++ {
			p := f.px(cx+x, cy+y)
			if p != p {
				return 0, false
			}
			v = append(v, p)
		}
	}
	sort.Float64s(v)
	return v[4], true
}

// clear reports whether nothing else lies within dist of a position.
func (f *detFrame) clear(x, y, dist float64, self int) bool {
	for k, s := range f.stars {
		if k != self && math.Hypot(s.X-x, s.Y-y) < dist {
			return false
		}
	}
	for _, p := range append(append([][2]int{}, f.hot...), f.odd...) {
		if math.Hypot(float64(p[0])-x, float64(p[1])-y) < dist {
			return false
		}
	}
	return true
}

func runP27(c *Case) {
	n := c.Int("n", 1, 4)
	radius := c.Int("radius", 2, 10)
	sig := float64(c.Pick("sig", 5, 8, 15, 40))
	bp := float64(c.Pick("bp", 0, 0, 3, 10))
	inOut := []float64{0, 0.5, 1, 1.4, 3}[c.Int("inout", 0, 4)]
	known := c.Bool("knowndiffs", 1, 2)
	save := c.Bool("save", 1, 3)
	var fr []*detFrame
	for i := 0; i < n; i++ {
		fr = append(fr, drawDetFrame(c, fmt.Sprintf("frame%d", i), radius))
	}
	pat := ""
	if save {
		pat = "stars%d" + c.PickS("savefmt", ".fits", ".fits", ".tif")
	}
	fs := vsim.NewFS()
	outs := make([]*fits.Image, n)
	locs := make([][2]float64, n)
	off := 0
	if c.Bool("off", 1, 40) {
		off = c.Int("offby", 1, 3)
	}
	std := make([]float64, n)
	var err error
	c.Sim("detect", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 4), LS: c.Pick("ls", 1, 1, 2, 3)}, func() {
		var ins []ops.Promise
		for i, f := range fr {
			i, f := i, f
			ins = append(ins, func() (*fits.Image, error) {
				img := mkImg(i, f.w, f.h, clone32(f.data))
				if off > 0 {
					img.Stars, img.HFR = []star.Star{{Index: 3, X: 3, Value: 1, Mass: 2, HFR: 1}}, 1.25
				}
				locs[i] = [2]float64{float64(img.Stats.Location()), float64(img.Stats.Scale())}
				if known {
					img.MedianDiffStats = stats.NewStats(clone32(f.diffs), 1)
					std[i] = float64(img.MedianDiffStats.StdDev())
				}
				return img, nil
			})
		}
		rd, sg := radius, sig
		if off&1 > 0 {
			rd = 0
		}
		if off&2 > 0 {
			sg = 0
		}
		op := ops.NewOpSequence(pre.NewOpStarDetect(int32(rd), float32(sg), float32(bp), float32(inOut), pat))
		var res []*fits.Image
		res, err = runJob(op, ins, newCtx(vsim.NewLogSink(), 1000), false)
		for _, g := range res {
			outs[g.ID] = g
		}
	})
	if err != nil {
		c.Fail("error", "star detection failed: %v", err)
	}
	if off > 0 {
		for i, f := range fr {
			g := outs[i]
			if g == nil || len(g.Stars) != 1 || g.Stars[0].Mass != 2 || g.HFR != 1.25 || bitsEq(g.Data, f.data) >= 0 {
				c.Fail("off", "star detection without radius or sigma is off, but frame %d changed", i)
			}
		}
		c.Probe("off")
		return
	}
	r2 := float64(radius * radius)
	for i, f := range fr {
		g := outs[i]
		if g == nil {
			c.Fail("lost", "frame %d is missing", i)
		}
		if k := bitsEq(g.Data, f.data); k >= 0 {
			c.Fail("pixels", "frame %d: detection changed pixel %d from %s to %s", i, k, at(f.data, k), at(g.Data, k))
		}
		loc, scale := locs[i][0], locs[i][1]
		thr, half := float64(float32(loc)+float32(scale)*float32(sig)), float64(float32(loc)+float32(scale)*float32(sig)*0.5)
		if len(g.Stars) > 0 {
			c.Nontrivial()
			c.Probe("stars found")
		}
		sum := 0.0
		for k, s := range g.Stars {
			who := fmt.Sprintf("frame %d (%dx%d) star %d at %.2f,%.2f index %d (radius %d)", i, f.w, f.h, k, s.X, s.Y, s.Index, radius)
			if s.Index < 0 || int(s.Index) >= len(f.data) || !(s.X > -0.6 && s.Y > -0.6 && float64(s.X) < float64(f.w)-0.4 && float64(s.Y) < float64(f.h)-0.4) {
				c.Fail("outside", "%s lies outside the frame", who)
			}
			cx, cy := int(s.Index)%f.w, int(s.Index)/f.w
			if math.Abs(float64(s.X)-float64(cx)) > 0.502 || math.Abs(float64(s.Y)-float64(cy)) > 0.502 {
				c.Fail("index", "%s: the index is pixel %d,%d", who, cx, cy)
			}
			if s.Value != f.data[s.Index] && s.Value == s.Value {
				c.Fail("value", "%s has value %g, the pixel is %g", who, s.Value, f.data[s.Index])
			}
			// position: center of mass of the box around the star
			ok := false
			var bx, by float64
			// usually within a pixel; the search for the center may end before it settles
			for reach := 1; reach <= radius+2 && !ok; reach++ {
				for dy := -reach; dy <= reach && !ok; dy++ {
					for dx := -reach; dx <= reach && !ok; dx++ {
						if reach > 1 && dx > -reach && dx < reach && dy > -reach && dy < reach {
							continue
						}
						x, y := f.center(cx+dx, cy+dy, radius, half)
						if dx == 0 && dy == 0 {
							bx, by = x, y
						}
						ok = math.Abs(x-float64(s.X)) < 2e-3 && math.Abs(y-float64(s.Y)) < 2e-3
					}
				}
			}
			if !ok {
				c.Fail("position", "%s: the center of mass around it is %.3f,%.3f", who, bx, by)
			}
			mass, hfr, inner, nAll, nIn, edge := f.flux(cx, cy, radius, loc)
			if math.Abs(mass-float64(s.Mass)) > 1e-3*mass+1e-6 {
				c.Fail("mass", "%s has mass %g, its pixels sum up to %g", who, s.Mass, mass)
			}
			if math.Abs(hfr-float64(s.HFR)) > 1e-3*hfr+1e-5 {
				c.Fail("hfr", "%s has HFR %g, its pixels yield %g", who, s.HFR, hfr)
			}
			if hfr > float64(radius)*1.001 {
				c.Fail("implausible", "%s has HFR %g beyond the radius", who, s.HFR)
			}
			if l, r := inner*float64(nAll-nIn), inOut*(mass-inner)*float64(nIn); !edge && l < r*0.998 {
				c.Fail("implausible", "%s has inner mass %g of %g in %d of %d pixels", who, inner, mass, nIn, nAll)
			}
			for m := 0; m < k; m++ {
				t := g.Stars[m]
				dx, dy := float64(s.X)-float64(t.X), float64(s.Y)-float64(t.Y)
				if dx*dx+dy*dy < r2+0.48 {
					c.Fail("double", "%s is too close to star %d at %.2f,%.2f", who, m, t.X, t.Y)
				}
			}
			// a bright pixel around it
			ok = false
			reach := 2*radius + 1
			for y := -reach; y <= reach && !ok; y++ {
				for x := -reach; x <= reach && !ok; x++ {
					p := f.px(cx+x, cy+y)
					ok = p > thr && p <= math.MaxFloat32
				}
			}
			if !ok {
				c.Fail("spurious", "%s: no pixel around it exceeds %g", who, thr)
			}
			sum += hfr
		}
		if len(g.Stars) > 0 && math.Abs(sum/float64(len(g.Stars))-float64(g.HFR)) > 2e-3*sum {
			c.Fail("average", "frame %d: HFR %g is not the average %g of its stars", i, g.HFR, sum/float64(len(g.Stars)))
		}
		// every clear star is found
		if bp == 0 || known {
			for k, s := range f.stars {
				m := float64(radius) + 1
				if s.X < m || s.Y < m || s.X > float64(f.w)-1-m || s.Y > float64(f.h)-1-m || !f.clear(s.X, s.Y, float64(2*radius)+3, k) {
					continue
				}
				if f.bg+s.A*math.Exp(-0.25/(s.S*s.S))-4*f.noise < thr || s.A < 12*f.noise {
					continue
				}
				cx, cy := int(math.Round(s.X)), int(math.Round(s.Y))
				if bp > 0 {
					// the brightest pixel must survive
					med, ok := f.median3(cx, cy)
					if !ok || s.A+f.bg+5*f.noise-med > 0.8*bp*std[i] {
						continue
					}
				}
				mass, hfr, inner, nAll, nIn, edge := f.flux(cx, cy, radius, loc)
				if edge || hfr > 0.9*float64(radius) || inner*float64(nAll-nIn) < 1.5*inOut*(mass-inner)*float64(nIn) {
					continue
				}
				found := 0
				for _, t := range g.Stars {
					d := math.Hypot(float64(t.X)-s.X, float64(t.Y)-s.Y)
					if d < float64(radius) {
						found++
						if tol := 0.2 + 3*f.noise*float64(radius*radius)/s.A; d > tol && radius > int(3*s.S) {
							c.Fail("inaccurate", "frame %d: star at %.2f,%.2f of amplitude %.3g (noise %.3g) was found at %.2f,%.2f", i, s.X, s.Y, s.A, f.noise, t.X, t.Y)
						}
					}
				}
				if found != 1 {
					c.Fail("missed", "frame %d: star at %.2f,%.2f of amplitude %.3g sigma %.2g (threshold %.3g, background %.3g, radius %d) was found %d times", i, s.X, s.Y, s.A, s.S, thr, f.bg, radius, found)
				}
				c.Probe("star as rendered")
			}
			if bp > 0 {
				for _, p := range f.hot {
					med, ok := f.median3(p[0], p[1])
					if v := f.px(p[0], p[1]); !ok || v-med < 1.2*bp*std[i] || !f.clear(float64(p[0])+1e-9, float64(p[1]), 1e-10, -1) {
						continue
					}
					if f.hotAlone(p, radius) {
						for _, t := range g.Stars {
							if math.Hypot(float64(t.X)-float64(p[0]), float64(t.Y)-float64(p[1])) < 0.5 {
								c.Fail("hot-pixel", "frame %d: the hot pixel %v is listed as a star at %.2f,%.2f", i, p, t.X, t.Y)
							}
						}
						c.Probe("hot pixel")
					}
				}
			}
		}
		// brightest first
		var last float64
		lastWho := ""
		for k, s := range g.Stars {
			cx, cy := int(s.Index)%f.w, int(s.Index)/f.w
			if m := radius + 2; cx < m || cy < m || cx >= f.w-m || cy >= f.h-m {
				continue
			}
			self := -1
			for q, t := range f.stars {
				if math.Hypot(t.X-float64(s.X), t.Y-float64(s.Y)) < 1 {
					self = q
				}
			}
			if self < 0 || !f.clear(float64(s.X), float64(s.Y), float64(2*radius)+3, self) {
				continue
			}
			m := 0.0
			for y := -radius; y <= radius; y++ {
				for x := -radius; x <= radius; x++ {
					m += posNum(f.px(cx+x, cy+y) - half)
				}
			}
			if lastWho != "" && m > 1.3*last {
				c.Fail("order", "frame %d: star %d at %.2f,%.2f with flux %g is listed after %s with flux %g", i, k, s.X, s.Y, m, lastWho, last)
			}
			if lastWho == "" || m < last {
				last, lastWho = m, fmt.Sprintf("star %d at %.2f,%.2f", k, s.X, s.Y)
			}
			c.Probe("order of stars")
		}
		if save {
			f.checkStarImage(c, i, g, fs, pat[len("stars%d"):])
		}
	}
}

// hotAlone reports that nothing else is near a hot pixel.
func (f *detFrame) hotAlone(p [2]int, radius int) bool {
	d := float64(2*radius + 3)
	for _, s := range f.stars {
		if math.Hypot(s.X-float64(p[0]), s.Y-float64(p[1])) < d+6*s.S {
			return false
		}
	}
	for _, q := range append(append([][2]int{}, f.hot...), f.odd...) {
		if q != p && math.Hypot(float64(q[0]-p[0]), float64(q[1]-p[1])) < d {
			return false
		}
	}
	return true
}

// checkStarTiff does the same for a picture in integers, whose range is that of the picture.
func (f *detFrame) checkStarTiff(c *Case, i int, g *fits.Image, b []byte) {
	img, err := tiff.Decode(bytes.NewReader(b))
	if err != nil || img.Bounds().Dx() != f.w || img.Bounds().Dy()*f.w != len(f.data) {
		c.Fail("star-image", "stars%d.tif: %v", i, err)
	}
	for _, s := range g.Stars {
		if !(s.HFR > 0.5) || math.IsInf(float64(s.Mass), 0) || math.IsNaN(float64(s.Mass)) {
			return
		}
	}
	top, dark := uint32(0), false
	for k := range f.data {
		x, y := k%f.w, k/f.w
		v, _, _, _ := img.At(x, y).RGBA()
		near := false
		for _, s := range g.Stars {
			near = near || math.Hypot(float64(s.X)-float64(x), float64(s.Y)-float64(y)) < float64(2*s.HFR)+1.5
		}
		if v != 0 && !near {
			c.Fail("star-image", "stars%d.tif shows a star at %d,%d, where there is none", i, x, y)
		}
		if v > top {
			top = v
		}
		dark = dark || v == 0
	}
	if len(g.Stars) > 0 && dark && top < 65000 {
		c.Fail("star-image", "the brightest star of stars%d.tif has the value %d of 65535", i, top)
	}
	c.Probe("star picture in integers")
}

// checkStarImage compares the saved picture of the stars with the list.
func (f *detFrame) checkStarImage(c *Case, i int, g *fits.Image, fs *vsim.FS, ext string) {
	b, ok := fs.Get(fmt.Sprintf("stars%d%s", i, ext))
	if !ok {
		c.Fail("star-image", "stars%d%s was not saved", i, ext)
	}
	if ext == ".tif" {
		f.checkStarTiff(c, i, g, b)
		return
	}
	img, err := decodeFits(b)
	if err != nil || len(img.Data) != len(f.data) {
		c.Fail("star-image", "stars%d.fits: %v", i, err)
	}
	for k, v := range img.Data {
		x, y := float64(k%f.w), float64(k/f.w)
		near, inside := false, false
		for _, s := range g.Stars {
			d := math.Hypot(float64(s.X)-x, float64(s.Y)-y)
			near = near || d < float64(2*s.HFR)+1.5
			inside = inside || s.HFR > 0.5 && d < float64(2*s.HFR)-1.5
		}
		if v != 0 && !near {
			c.Fail("star-image", "stars%d.fits shows a star at %g,%g, where there is none", i, x, y)
		}
		if v == 0 && inside {
			c.Fail("star-image", "stars%d.fits does not show the star at %g,%g", i, x, y)
		}
	}
	c.Probe("star image")
}
