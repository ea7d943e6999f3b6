package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P26: cosmetic correction, debayering, debanding, binning of color images and background
// extraction are exact per frame, with any number of frames going through one operator.
func init() {
	register(&Prop{ID: "P26", Quick: 200000, Rule: "Each case draws an operation with its settings and one to four frames of 1x1 to about 60x50 pixels with hot and cold pixels, bands, gradients or stars, sends the frames through the one operator on several threads under an explored schedule, and compares every pixel with a model.", Run: runP26})
}

// cmodel is the expected result for one frame: bounds for each pixel, nil if a decision is too close to call.
type cmodel struct {
	w, h   int
	lo, hi []float64
}

func (m *cmodel) set(i int, v, tol float64) { m.lo[i], m.hi[i] = v-tol, v+tol }

func newCmodel(w, h int, in []float32) *cmodel {
	m := &cmodel{w: w, h: h, lo: make([]float64, w*h), hi: make([]float64, w*h)}
	for i := range m.lo {
		if in != nil {
			m.set(i, float64(in[i]), 0)
		}
	}
	return m
}

func median32(v []float32) float32 {
	if len(v) == 0 {
		return float32(math.NaN())
	}
	s := sortedCopy(v)
	if n := len(s); n&1 == 1 {
		return s[n/2]
	} else {
		return 0.5 * (s[n/2-1] + s[n/2])
	}
}

// outliers tells which differences lie outside the thresholds; ok is false if one is too close to call.
func outliers(d []float32, sigLo, sigHi float32) (bad []bool, ok bool) {
	_, sd := meanStd64(d)
	bad = make([]bool, len(d))
	lo, hi := -sd*float64(sigLo), sd*float64(sigHi)
	mx := 0.0
	for _, v := range d {
		mx = math.Max(mx, math.Abs(float64(v)))
	}
	eps := 1e-4*math.Max(math.Abs(lo), math.Abs(hi)) + 1e-5*mx
	for i, v := range d {
		x := float64(v)
		if mx > 0 && (math.Abs(x-lo) < eps || math.Abs(x-hi) < eps) {
			return nil, false
		}
		bad[i] = x < lo || x > hi
	}
	return bad, true
}

func badPixelModel(in []float32, w, h int, sigLo, sigHi float32) *cmodel {
	m := newCmodel(w, h, in)
	cur := clone32(in)
	med := func(x, y int) float32 {
		var v []float32
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				v = append(v, cur[(y+dy)*w+x+dx])
			}
		}
		return median32(v)
	}
	d := make([]float32, len(in))
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			d[y*w+x] = in[y*w+x] - med(x, y)
		}
	}
	bad, ok := outliers(d, sigLo, sigHi)
	if !ok {
		return nil
	}
	for i, b := range bad {
		if b {
			cur[i] = med(i%w, i/w)
			m.set(i, float64(cur[i]), 0)
		}
	}
	return m
}

var cfaOffsets = map[string][2]int{"RGGB": {0, 0}, "GRBG": {1, 0}, "GBRG": {0, 1}, "BGGR": {1, 1}, "rggb": {0, 0}, "grbg": {1, 0}, "gbrg": {0, 1}, "bggr": {1, 1}}

// bayerColor is the color of a pixel, given the offset of the first red one.
func bayerColor(x, y int, off [2]int) byte {
	return "RGGB"[((x+off[0])&1)+2*((y+off[1])&1)]
}

func upper(s string) byte {
	b := s[0]
	if b >= 'a' {
		b -= 'a' - 'A'
	}
	return b
}

func bayerBadModel(in []float32, w, h int, ch, cfa string, sigLo, sigHi float32) *cmodel {
	off := cfaOffsets[cfa]
	m := newCmodel(w, h, in)
	// The color filter pattern is complete from the offset on. What lies before stays as is.
	x0, y0 := off[0], off[1]
	if upper(ch) == 'B' {
		x0, y0 = x0+1, y0+1
	}
	reach := [][2]int{{-2, -2}, {0, -2}, {2, -2}, {-2, 0}, {0, 0}, {2, 0}, {-2, 2}, {0, 2}, {2, 2}}
	if upper(ch) == 'G' {
		reach = [][2]int{{0, -2}, {-1, -1}, {1, -1}, {-2, 0}, {0, 0}, {2, 0}, {-1, 1}, {1, 1}, {0, 2}}
	}
	var idx []int
	var d, meds []float32
	for y := y0; y < h; y++ {
		for x := x0; x < w; x++ {
			if bayerColor(x, y, off) != upper(ch) {
				continue
			}
			var v []float32
			for _, o := range reach {
				if a, b := x+o[0], y+o[1]; a >= 0 && b >= 0 && a < w && b < h {
					v = append(v, in[b*w+a])
				}
			}
			md := median32(v)
			idx, d, meds = append(idx, y*w+x), append(d, in[y*w+x]-md), append(meds, md)
		}
	}
	if len(idx) == 0 {
		return m
	}
	bad, ok := outliers(d, sigLo, sigHi)
	if !ok {
		return nil
	}
	for i, b := range bad {
		if b {
			m.set(idx[i], float64(meds[i]), 0)
		}
	}
	return m
}

// debayerModel: known samples are kept, others are the mean of the nearest samples of that color.
// Where some of these lie outside the image, the value lies between the nearby samples.
func debayerModel(in []float32, w, h int, ch, cfa string) *cmodel {
	off := cfaOffsets[cfa]
	aw, ah := (w-off[0])&^1, (h-off[1])&^1
	if aw <= 0 || ah <= 0 {
		return &cmodel{}
	}
	m := newCmodel(aw, ah, nil)
	col := upper(ch)
	for y := 0; y < ah; y++ {
		for x := 0; x < aw; x++ {
			sx, sy, i := x+off[0], y+off[1], y*aw+x
			if bayerColor(sx, sy, off) == col {
				m.set(i, float64(in[sy*w+sx]), 0)
				continue
			}
			// nearest samples: direct neighbors, else diagonal ones
			var sum float64
			n, missing := 0, false
			try := func(ds [][2]int) {
				for _, o := range ds {
					a, b := sx+o[0], sy+o[1]
					if bayerColor(a+2, b+2, off) != col {
						continue
					}
					if a < 0 || b < 0 || a >= w || b >= h {
						missing = true
						continue
					}
					sum += float64(in[b*w+a])
					n++
				}
			}
			try([][2]int{{-1, 0}, {1, 0}, {0, -1}, {0, 1}})
			if n == 0 && !missing {
				try([][2]int{{-1, -1}, {1, -1}, {-1, 1}, {1, 1}})
			}
			if !missing && n > 0 {
				v := sum / float64(n)
				lo, hi := around(in, w, h, sx, sy, col, off)
				m.set(i, v, 1e-6*math.Max(math.Abs(lo), math.Abs(hi)))
				continue
			}
			lo, hi := around(in, w, h, sx, sy, col, off)
			t := 1e-6 * math.Max(math.Abs(lo), math.Abs(hi))
			m.lo[i], m.hi[i] = lo-t, hi+t
		}
	}
	return m
}

// around gives the range of samples of a color within two pixels.
func around(in []float32, w, h, x, y int, col byte, off [2]int) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for b := y - 2; b <= y+2; b++ {
		for a := x - 2; a <= x+2; a++ {
			if a >= 0 && b >= 0 && a < w && b < h && bayerColor(a, b, off) == col {
				v := float64(in[b*w+a])
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
	}
	return
}

func medianF64(v []float64) float64 {
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	if n := len(s); n&1 == 1 {
		return s[n/2]
	} else {
		return 0.5 * (s[n/2-1] + s[n/2])
	}
}

// debandModel scales each line to the median of the percentiles of the lines around.
func debandModel(in []float32, w, h int, vert bool, perc float32, window int, sigma float32) *cmodel {
	lines, length := h, w
	pos := func(l, i int) int { return l*w + i }
	if vert {
		lines, length = w, h
		pos = func(l, i int) int { return i*w + l }
	}
	thr := math.Inf(1)
	if sigma != 0 {
		mean, sd := meanStd64(in)
		thr = mean + float64(sigma)*sd
		for _, v := range in {
			if math.Abs(float64(v)-thr) < 1e-5*(math.Abs(mean)+math.Abs(thr)+sd) {
				return nil
			}
		}
	}
	if window > lines {
		window = lines
	}
	ps := make([]float64, lines)
	mx := 0.0
	for l := range ps {
		var v, all []float32
		for i := 0; i < length; i++ {
			d := in[pos(l, i)]
			all = append(all, d)
			if float64(d) <= thr {
				v = append(v, d)
			}
		}
		if len(v) == 0 {
			v = all
		}
		k := int(float32(len(v)) * perc * 0.01)
		if k < 1 {
			k = 1
		}
		ps[l] = float64(sortedCopy(v)[k-1])
		mx = math.Max(mx, math.Abs(ps[l]))
	}
	m := newCmodel(w, h, in)
	for l := range ps {
		start := l - window/2
		end := start + window
		var miss int
		if start < 0 {
			miss, start = start, 0
			end = start + window
		} else if end > lines {
			miss, end = end-lines, lines
			start = end - window
		}
		win := append([]float64(nil), ps[start:end]...)
		if miss != 0 {
			// beyond the edge, continue the linear trend of the window
			nl := window / 2
			lm, rm := medianF64(win[:nl]), medianF64(win[nl:])
			mid := 0.5 * float64(window)
			at := func(o float64) float64 { return 0.5*(lm+rm) + (rm-lm)/mid*(o-mid) }
			if miss < 0 {
				for i := window + miss; i < window; i++ {
					win[i] = at(float64(i - window))
				}
			} else {
				for i := 0; i < miss; i++ {
					win[i] = at(float64(i + window))
				}
			}
		}
		fac, tol := 1.0, 0.0
		if ps[l] != 0 {
			fac = medianF64(win) / ps[l]
			tol = 2e-6*math.Abs(fac) + 1e-5*mx/math.Abs(ps[l])
		}
		for i := 0; i < length; i++ {
			v := float64(in[pos(l, i)])
			m.set(pos(l, i), v*fac, math.Abs(v)*tol)
		}
	}
	return m
}

// backModel subtracts a grid of trimmed medians without the highest ones, smoothed and interpolated.
func backModel(c0 *Case, in []float32, w, h, grid int, hfrFac, sigma float32, stars []star.Star, clip int) (m *cmodel, bg []float64) {
	cells := func(n int) (int, float64) {
		k := (n + grid/2) / grid
		if k < 1 {
			k = 1
		}
		return k, float64(float32(n) / float32(k))
	}
	cx, gx := cells(w)
	cy, gy := cells(h)
	cut := func(i int, g float64, n int) int {
		v := int(float32(i)*float32(g) + 0.5)
		if v > n {
			v = n
		}
		return v
	}
	c := make([]float64, cx*cy)
	missing := 0
	// fill replaces missing cells by the median of their neighbors
	fill := func() bool {
		d := append([]float64(nil), c...)
		for k, v := range c {
			if v == v {
				continue
			}
			var nb []float32
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					x, y := k%cx+dx, k/cx+dy
					if x < 0 || y < 0 || x >= cx || y >= cy || dx == 0 && dy == 0 {
						continue
					}
					if v := c[y*cx+x]; v != v {
						return false // depends on the order of interpolation
					} else {
						nb = append(nb, float32(v))
					}
				}
			}
			if len(nb) == 0 {
				return false
			}
			d[k] = float64(median32(nb))
		}
		copy(c, d)
		return true
	}
	for j := 0; j < cy; j++ {
		for i := 0; i < cx; i++ {
			var v []float32
			for y := cut(j, gy, h); y < cut(j+1, gy, h); y++ {
			next:
				for x := cut(i, gx, w); x < cut(i+1, gx, w); x++ {
					for _, s := range stars {
						dx, dy := float64(x)-float64(s.X), float64(y)-float64(s.Y)
						r2 := math.Pow(float64(s.HFR)*float64(hfrFac), 2)
						if d := dx*dx + dy*dy; math.Abs(d-r2) < 1e-5*(1+r2) {
							return nil, nil
						} else if d < r2 {
							continue next
						}
					}
					v = append(v, in[y*w+x])
				}
			}
			if len(v) == 0 { // fully covered by stars
				c[j*cx+i] = math.NaN()
				missing++
				continue
			}
			md := median32(v)
			var ad []float32
			for _, x := range v {
				ad = append(ad, float32(math.Abs(float64(x)-float64(md))))
			}
			up := float64(md) + float64(sigma)*1.4826*float64(median32(ad))
			var keep []float32
			for _, x := range v {
				if up != float64(md) && math.Abs(float64(x)-up) < 1e-5*(math.Abs(float64(md))+math.Abs(up)) {
					return nil, nil
				}
				if float64(x) <= up {
					keep = append(keep, x)
				}
			}
			c[j*cx+i] = float64(median32(keep))
		}
	}
	if missing > 0 {
		if !fill() {
			return nil, nil
		}
		c0.Probe("background cell covered by stars")
	}
	if clip > 0 && clip < len(c) {
		o := append([]float64(nil), c...)
		sort.Float64s(o)
		if th := o[len(o)-clip]; o[0] < th {
			for k, v := range c {
				if v >= th {
					c[k] = math.NaN()
				}
			}
			if !fill() {
				return nil, nil
			}
			c0.Probe("background cells clipped")
		}
	}
	wt := []float64{0.468592, 0.107973, 0.024879}
	s := make([]float64, len(c))
	for j := 0; j < cy; j++ {
		for i := 0; i < cx; i++ {
			var a, b float64
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					if x, y := i+dx, j+dy; x >= 0 && y >= 0 && x < cx && y < cy {
						k := wt[dx*dx+dy*dy]
						a, b = a+k*c[y*cx+x], b+k
					}
				}
			}
			s[j*cx+i] = a / b
		}
	}
	// Position in units of cells: linear between the rounded cell centers.
	place := func(p int, g float64, n int) (lo, hi int, f float64) {
		ctr := func(i int) int { return int(float32(float64(i)+0.5)*float32(g) + 0.5) }
		k, a, b := -1, int(float32(-0.5*g)-0.5), ctr(0)
		for p >= b {
			k++
			a, b = b, ctr(k+1)
		}
		at := float64(k) + float64(p-a)/float64(b-a)
		if n == 1 {
			return 0, 0, 0
		}
		if k < 0 {
			k = 0
		}
		if k+1 >= n {
			k = n - 2
		}
		return k, k + 1, at - float64(k)
	}
	m = newCmodel(w, h, in)
	bg = make([]float64, w*h)
	mx := 0.0
	for _, v := range s {
		mx = math.Max(mx, math.Abs(v))
	}
	for y := 0; y < h; y++ {
		yl, yh, fy := place(y, gy, cy)
		for x := 0; x < w; x++ {
			xl, xh, fx := place(x, gx, cx)
			a := s[yl*cx+xl]*(1-fx) + s[yl*cx+xh]*fx
			b := s[yh*cx+xl]*(1-fx) + s[yh*cx+xh]*fx
			i := y*w + x
			bg[i] = a*(1-fy) + b*fy
			m.set(i, float64(in[i])-bg[i], 2e-5*(mx+math.Abs(float64(in[i]))))
		}
	}
	return m, bg
}

// cosFrame draws a frame with noise, gradient, bands, outliers and ties.
func cosFrame(r *R, w, h int) []float32 {
	d := make([]float32, w*h)
	base, noise, grad, band := 100+900*r.F(), 20*r.F(), 3*r.F(), 0.3*r.F()
	quant := r.N(3) == 0
	row, col := make([]float64, h), make([]float64, w)
	for i := range row {
		row[i] = 1 + band*(r.F()-0.5)
	}
	for i := range col {
		col[i] = 1 + band*(r.F()-0.5)
	}
	kind := r.N(6)
	for i := range d {
		x, y := i%w, i/w
		v := (base + grad*float64(x-y) + noise*r.Norm()) * row[y] * col[x]
		switch {
		case kind == 5:
			v = base // uniform
		case r.N(40) == 0:
			v = base + 3000*r.F()
		case r.N(40) == 0:
			v = 0
		}
		if quant {
			v = math.Round(v)
		}
		d[i] = float32(v)
	}
	if kind == 4 { // a bright and a dark line
		y, x := r.N(h), r.N(w)
		for i := 0; i < w; i++ {
			d[y*w+i] = 60000
		}
		for i := 0; i < h; i++ {
			d[i*w+x] = 0
		}
	}
	return d
}

func runP26(c *Case) {
	kinds := []string{"badPixel", "badBayer", "debayer", "debandHoriz", "debandVert", "bin", "backExtract"}
	kind := kinds[c.Int("op", 0, len(kinds)-1)]
	r := c.Rand("op")
	f32r := func(lo, hi float64) float32 { return float32(lo + (hi-lo)*r.F()) }
	chans := []string{"R", "G", "B", "r", "g", "b"}
	cfas := []string{"RGGB", "GRBG", "GBRG", "BGGR", "rggb", "bggr"}
	ch, cfa := chans[r.N(len(chans))], cfas[r.N(len(cfas))]
	var op ops.Operator
	var model func(k int, in []float32, w, h int) *cmodel
	var stars [4][]star.Star
	colorImg, save := false, false
	name := kind
	bgs := map[int][]float64{}
	grid := 0
	fs := vsim.NewFS()
	switch kind {
	case "badPixel":
		lo, hi := f32r(0.5, 6), f32r(0.5, 6)
		if r.N(12) == 0 {
			lo = 0
		}
		var deb *pre.OpDebayer
		if r.N(3) == 0 {
			deb = pre.NewOpDebayer("", "RGGB")
		}
		op = pre.NewOpBadPixel(lo, hi, deb)
		name = fmt.Sprintf("bad pixel removal with sigma %g %g", lo, hi)
		model = func(k int, in []float32, w, h int) *cmodel {
			if lo == 0 {
				return newCmodel(w, h, in)
			}
			return badPixelModel(in, w, h, lo, hi)
		}
	case "badBayer":
		lo, hi := f32r(0.5, 5), f32r(0.5, 5)
		op = pre.NewOpBadPixel(lo, hi, pre.NewOpDebayer(ch, cfa))
		name = fmt.Sprintf("bad pixel removal of %s in %s with sigma %g %g", ch, cfa, lo, hi)
		model = func(k int, in []float32, w, h int) *cmodel { return bayerBadModel(in, w, h, ch, cfa, lo, hi) }
	case "debayer":
		if r.N(12) == 0 {
			ch = ""
		}
		op = pre.NewOpDebayer(ch, cfa)
		name = fmt.Sprintf("debayering of %q in %s", ch, cfa)
		model = func(k int, in []float32, w, h int) *cmodel {
			if ch == "" {
				return newCmodel(w, h, in)
			}
			return debayerModel(in, w, h, ch, cfa)
		}
	case "debandHoriz", "debandVert":
		perc, win, sigma := float32(50), 1+r.N(70), float32(0)
		if r.N(2) == 0 {
			perc = f32r(0.2, 99.8)
		}
		if r.N(2) == 0 {
			sigma = f32r(0.5, 4)
		}
		if r.N(15) == 0 {
			perc = []float32{0, 100, -1}[r.N(3)]
		}
		name = fmt.Sprintf("%s with percentile %g, window %d, sigma %g", kind, perc, win, sigma)
		vert := kind == "debandVert"
		if vert {
			op = pre.NewOpDebandVert(perc, int32(win), sigma)
		} else {
			op = pre.NewOpDebandHoriz(perc, int32(win), sigma)
		}
		model = func(k int, in []float32, w, h int) *cmodel {
			if perc <= 0 || perc >= 100 {
				return newCmodel(w, h, in)
			}
			return debandModel(in, w, h, vert, perc, win, sigma)
		}
	case "bin":
		b := 1 + r.N(5)
		colorImg = r.N(2) == 0
		op = pre.NewOpBin(int32(b))
		name = fmt.Sprintf("binning by %d, color %v", b, colorImg)
		model = func(k int, in []float32, w, h int) *cmodel {
			planes := len(in) / (w * h)
			bw, bh := w/b, h/b
			m := newCmodel(bw, bh*planes, nil)
			for p := 0; p < planes; p++ {
				for y := 0; y < bh; y++ {
					for x := 0; x < bw; x++ {
						var s, a float64
						for i := 0; i < b*b; i++ {
							v := float64(in[(p*h+y*b+i/b)*w+x*b+i%b])
							s, a = s+v, a+math.Abs(v)
						}
						m.set((p*bh+y)*bw+x, s/float64(b*b), 1e-5*a/float64(b*b))
					}
				}
			}
			m.h = bh
			return m
		}
	case "backExtract":
		grid = 1 + r.N(40)
		hfr, sigma := f32r(0.5, 4), f32r(0, 4)
		clip := 0
		if r.N(4) == 0 {
			clip = 1 + r.N(6)*r.N(2)
		}
		save = r.N(3) == 0
		pat := ""
		if save {
			pat = "back%d.fits"
		}
		op = pre.NewOpBackExtract(int32(grid), hfr, sigma, int32(clip), pat)
		name = fmt.Sprintf("background extraction with grid %d, star factor %g, sigma %g, clip %d", grid, hfr, sigma, clip)
		model = func(k int, in []float32, w, h int) *cmodel {
			m, bg := backModel(c, in, w, h, grid, hfr, sigma, stars[k], clip)
			bgs[k] = bg
			return m
		}
	}
	n := c.Int("frames", 1, 4)
	fr := c.Rand("frames")
	var imgs []*fits.Image
	var ins [][]float32
	var dims [][2]int
	for k := 0; k < n; k++ {
		w, h := 1+fr.N(24), 1+fr.N(24)
		if fr.N(4) == 0 {
			w, h = w+30, h+20
			if fr.N(40) == 0 {
				w, h = w*4, h*4+1
			}
		}
		d := cosFrame(fr, w, h)
		if colorImg {
			d = append(append(d, cosFrame(fr, w, h)...), cosFrame(fr, w, h)...)
		}
		c.Mix(hstr(fmt.Sprint(name, w, h, d[0], d[len(d)/2])))
		ins, dims = append(ins, d), append(dims, [2]int{w, h})
		var f *fits.Image
		if colorImg {
			f = mkImg3(k, w, h, clone32(d))
		} else {
			f = mkImg(k, w, h, clone32(d))
		}
		if kind == "backExtract" {
			for i := fr.N(5); i > 0; i-- {
				s := star.Star{X: float32(fr.F() * float64(w)), Y: float32(fr.F() * float64(h)), HFR: float32(0.3 + 2.5*fr.F()), Mass: 100, Value: 10}
				if fr.N(6) == 0 {
					s.HFR *= 5
				}
				stars[k] = append(stars[k], s)
			}
			f.Stars = append([]star.Star(nil), stars[k]...)
		}
		imgs = append(imgs, f)
	}
	log := vsim.NewLogSink()
	outs, errs := make([]*fits.Image, n), make([]error, n)
	var mkErr error
	c.Sim("op", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 8), LS: 1, FS: fs}, func() {
		ctx := newCtx(log, 64)
		ctx.MaxThreads = c.Int("threads", 1, 4)
		var ps []ops.Promise
		ps, mkErr = op.MakePromises(promisesOf(imgs...), ctx)
		if mkErr != nil {
			return
		}
		var rec []ops.Promise
		for i, p := range ps {
			i, p := i, p
			rec = append(rec, func() (*fits.Image, error) { outs[i], errs[i] = p(); return outs[i], nil })
		}
		ops.MaterializeAll(rec, ctx.MaxThreads, false)
	})
	if mkErr != nil {
		c.Fail("spurious-error", "%s: %v", name, mkErr)
	}
	c.Probe(kind)
	c.Nontrivial()
	for k := range imgs {
		w, h := dims[k][0], dims[k][1]
		what := fmt.Sprintf("%s of a %dx%d frame", name, w, h)
		m := model(k, ins[k], w, h)
		if m != nil && len(m.lo) == 0 { // too small
			if errs[k] == nil {
				c.Fail("too-small", "%s reports no error", what)
			}
			c.Probe("too small")
			continue
		}
		if errs[k] != nil {
			c.Fail("spurious-error", "%s: %v", what, errs[k])
		}
		o := outs[k]
		if o == nil || o.ID != k {
			c.Fail("frame", "%s gives no frame, or another one: %v", what, o)
		}
		if kind == "backExtract" {
			if len(o.Data) != w*h || int(o.Naxisn[0]) != w || int(o.Naxisn[1]) != h {
				c.Fail("dimensions", "%s gives dimensions %v", what, o.Naxisn)
			}
			lo, hi := minMax64(ins[k])
			if len(stars[k]) > 0 { // zero if stars cover everything
				lo, hi = math.Min(lo, 0), math.Max(hi, 0)
			}
			sat := 0.0
			for i, v := range o.Data {
				b := float64(ins[k][i]) - float64(v)
				// The background is extrapolated by up to one half cell on each side.
				if !(b >= lo-2.5*(hi-lo)-1e-3*math.Abs(hi) && b <= hi+2.5*(hi-lo)+1e-3*math.Abs(hi)) {
					c.Fail("background-range", "%s subtracts %g from pixel %d, while the frame has [%g, %g]", what, b, i, lo, hi)
				}
				sat = math.Max(sat, math.Abs(b))
			}
			if save {
				b, _ := fs.Get(fmt.Sprintf("back%d.fits", k))
				ff, err := decodeFits(b)
				if err != nil {
					c.Fail("background-file", "%s: background file: %v", what, err)
				}
				if len(ff.Data) != w*h {
					c.Fail("background-file", "%s: background file has %d pixels", what, len(ff.Data))
				}
				for i, v := range ff.Data {
					if s := float64(v) + float64(o.Data[i]); math.Abs(s-float64(ins[k][i])) > 1e-5*(sat+math.Abs(float64(ins[k][i]))) {
						c.Fail("background-file", "%s: pixel %d: background %g and result %g do not sum up to %g", what, i, v, o.Data[i], ins[k][i])
					}
				}
				c.Probe("background saved")
			}
		}
		if m == nil {
			c.Probe("close call")
			continue
		}
		if int(o.Naxisn[0]) != m.w || int(o.Naxisn[1]) != m.h || len(o.Data) != len(m.lo) || int(o.Pixels) != len(m.lo) {
			c.Fail("dimensions", "%s gives dimensions %v, %d pixels, expected %dx%d", what, o.Naxisn, len(o.Data), m.w, m.h)
		}
		for i, v := range o.Data {
			if x := float64(v); !(x >= m.lo[i] && x <= m.hi[i]) {
				was := ""
				if len(ins[k]) == len(o.Data) {
					was = fmt.Sprintf(" was %g and", ins[k][i])
				}
				c.Fail("pixels", "%s: pixel %d of %d (x %d y %d)%s is %g, expected [%g, %g]", what, i, len(o.Data), i%m.w, i/m.w, was, v, m.lo[i], m.hi[i])
			}
		}
		c.Probe("compared")
	}
}
