package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	colorful "github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P34: the whole way from the frames of three or four color channels to a picture.
func init() {
	register(&Prop{ID: "P34", Quick: 350, Rule: "Each case draws a field of colored stars and 2-4 frames of it through each of three color filters and, in half of the cases, without filter, with shifts, rotations, and another gain, background and exposure per filter. One job per filter stacks its frames, aligned to the file which the first of these jobs wrote; a last job combines the stacks to a color picture, balances the colors, applies the luminance and may stretch the brightness. Order of the filters, stacking mode, thread counts, short reads and schedules are drawn. Non-trivial: the picture was written", Run: runP34})
}

func runP34(c *Case) {
	r := c.Rand("scene")
	w, h := c.Int("w", 155, 185), c.Int("h", 155, 185)
	nch := 3
	if c.Bool("lum", 1, 2) {
		nch = 4
	}
	sky := skyModel(r, w, h, 22+r.N(6), 25)
	tint := make([][4]float64, len(sky))
	for i := range sky {
		sky[i].A = 1500 * math.Pow(1.08, float64(i)) * (1 + 0.05*r.F())
		sky[i].S = 1.5 + 0.5*r.F()
		for k := 0; k < 3; k++ {
			tint[i][k] = 0.75 + 0.5*r.F()
		}
		tint[i][3] = (tint[i][0] + tint[i][1] + tint[i][2]) / 3
	}
	stretched := c.Bool("stretch", 1, 3)
	noise := 3 + 6*r.F()
	fs := vsim.NewFS()
	names := []string{"red", "green", "blue", "lum"}
	views := make([][]*view, nch)
	stars := make([][]starPos, nch)
	for k := 0; k < nch; k++ {
		for i, s := range sky {
			s.A *= tint[i][k]
			stars[k] = append(stars[k], s)
		}
	}
	first := c.Int("first", 0, nch-1)
	rotate := c.Bool("rotate", 1, 2)
	gains, bgs, expo := make([]float64, nch), make([]float64, nch), make([]float64, nch)
	for k := 0; k < nch; k++ {
		gains[k], bgs[k] = 0.6+0.8*r.F(), 400+500*r.F()
		n := 2 + r.N(3)
		for i := 0; i < n; i++ {
			v := &view{a: 1, gain: gains[k], bg: bgs[k], expo: float64(5 + r.N(60))}
			v.tx, v.ty = (r.F()*2-1)*4, (r.F()*2-1)*4
			if rotate {
				th := (r.F()*2 - 1) * 0.05
				cx, cy := float64(w)/2, float64(h)/2
				v.a, v.b = math.Cos(th), math.Sin(th)
				v.tx += cx - (v.a*cx - v.b*cy)
				v.ty += cy - (v.b*cx + v.a*cy)
			}
			d := v.show(stars[k], w, h)
			raw := make([]float32, len(d))
			for j := range d {
				raw[j] = float32(d[j] + v.gain*noise*r.Norm())
			}
			fs.Put(fmt.Sprintf("%s%02d.fits", names[k], i), fitsF32(w, h, raw, strconv.FormatFloat(v.expo, 'f', 1, 64)))
			views[k] = append(views[k], v)
			expo[k] += v.expo
		}
	}
	g := defStackCfg()
	g.BpLow, g.BpHigh, g.Stats = 0, 0, ""
	g.Mode = stack.StackMode(c.Pick("mode", int(stack.StMedian), int(stack.StMean), int(stack.StAuto)))
	g.NormHist = post.HNMNone
	g.AlignK = 20 // as the command line
	sim := func(name string, fn func()) {
		plan := &vsim.FaultPlan{Kinds: map[string]float64{"read-short": []float64{0, 0, 0.2}[c.Int("short-"+name, 0, 2)]}, Max: 50}
		c.Sim(name, Opt{Explore: true, NumCPU: c.Int("cpu-"+name, 1, 4), FS: fs, Plan: plan, LS: 4, NoRace: true, MemMiB: 64000, StepCap: 6000000}, fn)
	}
	order := []int{first}
	for k := 0; k < nch; k++ {
		if k != first {
			order = append(order, k)
		}
	}
	for i, k := range order {
		gk := g
		gk.Patterns, gk.Out = []string{names[k] + "*.fits"}, "stack-"+names[k]+".fits"
		if i > 0 {
			gk.AlignRef = "stack-" + names[first] + ".fits"
		}
		var err error
		sim(names[k], func() {
			_, err = runJob(gk.stackOps(), nil, newCtx(vsim.NewLogSink(), 1000), true)
		})
		if err != nil {
			c.Fail("job-failed", "stacking %d good frames of channel %s fails: %v", len(views[k]), names[k], err)
		}
	}
	var in []string
	var st []*fitsFile
	for k := 0; k < nch; k++ {
		in = append(in, "stack-"+names[k]+".fits")
		raw, _ := fs.Get(in[k])
		f, e := decodeFits(raw)
		if e != nil || len(f.Data) != w*h {
			c.Fail("no-output", "stack of channel %s: %v", names[k], e)
		}
		st = append(st, f)
	}
	sd := pre.NewOpStarDetect(8, 10, 0, 1.4, "")
	sel := ref.NewOpSelectReference(ref.SRAlign, "%rgb", sd)
	one := fits.RGB{R: 1, G: 1, B: 1}
	seq := []ops.Operator{ops.NewOpLoadMany(in), sd, sel, rgb.NewOpRGBCombine(), rgb.NewOpRGBBalance(8, 0.1, 0, 0.5, one, one),
		rgb.NewOpRGBToHSLuv(), hsl.NewOpHSLApplyLum(), hsl.NewOpHSLUnsharpMask(1, 0, 1), hsl.NewOpHSLNeutralizeBackground(-1, -1),
		hsl.NewOpHSLSaturationGamma(1, 1), hsl.NewOpHSLSelectiveSaturation(295, 40, 1), hsl.NewOpHSLRotateHue(100, 190, 0, 1), hsl.NewOpHSLSCNR(0)}
	if stretched {
		seq = append(seq, hsl.NewOpHSLStretchIterative(0.1, 0.004))
	}
	seq = append(seq, hsl.NewOpHSLMidtones(0, 2), hsl.NewOpHSLGamma(1), hsl.NewOpHSLGammaPP(1, 1), hsl.NewOpHSLScaleOffsetChannel(2, 1, 0),
		hsl.NewOpHSLScaleBlack(0), rgb.NewOpHSLuvToRGB(), ops.NewOpSave("picture.fits", ops.EMMinMax, 1), ops.NewOpSave("picture.jpg", ops.EM0_1, 1))
	var err error
	sim("picture", func() {
		_, err = runJob(ops.NewOpSequence(seq...), nil, newCtx(vsim.NewLogSink(), 1000), true)
	})
	if err != nil {
		c.Fail("job-failed", "combining %d good channels fails: %v", nch, err)
	}
	raw, _ := fs.Get("picture.fits")
	out, e := decodeFits(raw)
	sz := w * h
	if e != nil || len(out.Data) != 3*sz || len(out.Naxis) != 3 || out.Naxis[0] != w || out.Naxis[1] != h {
		c.Fail("no-output", "picture: %v", e)
	}
	if b, ok := fs.Get("picture.jpg"); !ok || len(b) < 100 {
		c.Fail("no-output", "no picture in the JPEG file")
	}
	c.Nontrivial()
	if stretched {
		c.Probe("stretched")
	}
	if nch == 4 {
		c.Probe("luminance")
	}
	sum := 0.0
	for k := 0; k < nch; k++ {
		sum += expo[k]
	}
	if ex, _ := strconv.ParseFloat(strings.TrimSpace(strings.Join(out.Keys["EXPOSURE"], "")), 64); math.Abs(ex-sum) > 0.01 {
		c.Fail("exposure", "the frames combined were exposed for %g s in total, the picture says %g", sum, ex)
	}
	// the picture shows the sky as one of the frames of the first channel does
	rv, best := (*view)(nil), math.Inf(1)
	for _, v := range views[first] {
		q := 0.0
		for j, x := range v.show(stars[first], w, h) {
			if o := float64(st[first].Data[j]); o == o {
				q += math.Min(math.Abs(o-x), 100)
			}
		}
		if q < best {
			rv, best = v, q
		}
	}
	inAll := func(x, y float64, m float64) bool {
		sx, sy := rv.back(x, y)
		for _, vs := range views {
			for _, v := range vs {
				if fx, fy := v.at(sx, sy); fx < m || fy < m || fx > float64(w-1)-m || fy > float64(h-1)-m {
					return false
				}
			}
		}
		return true
	}
	lum := func(j int) float64 {
		_, _, l := colorful.LinearRgb(float64(out.Data[j]), float64(out.Data[j+sz]), float64(out.Data[j+2*sz])).HSLuv()
		return l
	}
	mono := make([][]float64, nch) // the sky as each channel shows it in the place of the reference
	for k := range mono {
		v := *rv
		v.gain, v.bg = gains[k], 0
		mono[k] = v.show(stars[k], w, h)
	}
	lmn, lmx := math.Inf(1), math.Inf(-1)
	if nch == 4 {
		lmn, lmx = minMax64(st[3].Data)
	}
	var s1, s2 [3]float64
	cnt := 0.0
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			j := y*w + x
			in := inAll(float64(x), float64(y), 3)
			for k := 0; k < 3; k++ {
				v := float64(out.Data[j+k*sz])
				if in && (v != v || v < -1e-6 || v > 1+1e-6) {
					c.Fail("range", "pixel %d,%d which all frames show is %g in the picture", x, y, v)
				}
			}
			if !in {
				continue
			}
			if nch == 4 && !stretched {
				u := (float64(st[3].Data[j]) - lmn) / (lmx - lmn)
				_, _, want := colorful.LinearRgb(u, u, u).HSLuv()
				if l := lum(j); math.Abs(l-want) > 0.01 {
					c.Fail("luminance", "pixel %d,%d of the luminance stack is %g in a range of %g to %g, which is a brightness of %.4f; the picture has %.4f", x, y, st[3].Data[j], lmn, lmx, want, l)
				}
			}
			dark := true
			for k := range mono {
				if mono[k][j] > 0.02*noise {
					dark = false
				}
			}
			if dark {
				cnt++
				for k := 0; k < 3; k++ {
					v := float64(out.Data[j+k*sz])
					s1[k], s2[k] = s1[k]+v, s2[k]+v*v
				}
			}
		}
	}
	if cnt < 300 {
		c.Probe("little background")
		return
	}
	var bg, rms [3]float64
	all, mr := 0.0, 0.0
	for k := range bg {
		bg[k] = s1[k] / cnt
		rms[k] = math.Sqrt(math.Max(0, s2[k]/cnt-bg[k]*bg[k]))
		all, mr = all+bg[k]/3, math.Max(mr, rms[k])
	}
	for k := range bg {
		c.Note("bg", (bg[k]-all)/mr)
		if math.Abs(bg[k]-all) > 1.2*mr {
			c.Fail("tint", "the background of the picture is not gray: red %.4g, green %.4g, blue %.4g, with noise of %.3g", bg[0], bg[1], bg[2], mr)
		}
	}
	// light and place of the stars
	var ratio [3][]float64
	var flux [3]float64
	var ax, ay, an float64
	for i, s := range sky {
		x0, y0 := rv.at(s.X, s.Y)
		if !inAll(x0, y0, 9) {
			continue
		}
		for k := 0; k < 3; k++ {
			var f, fw, mx, my, wx, wy float64
			for y := int(y0+0.5) - 5; y <= int(y0+0.5)+5; y++ {
				for x := int(x0+0.5) - 5; x <= int(x0+0.5)+5; x++ {
					if ex, ey := float64(x)-x0, float64(y)-y0; ex*ex+ey*ey > 26 {
						continue
					}
					j := y*w + x
					v, u := float64(out.Data[j+k*sz])-bg[k], mono[k][j]
					f, mx, my = f+v, mx+v*float64(x), my+v*float64(y)
					fw, wx, wy = fw+u, wx+u*float64(x), wy+u*float64(y)
				}
			}
			if !(f > 0) {
				c.Fail("star", "star at %.1f,%.1f is not in the picture's channel %d", x0, y0, k)
			}
			ratio[k] = append(ratio[k], f/fw)
			if i >= len(sky)/2 {
				flux[k] += f
			}
			dx, dy := mx/f-wx/fw, my/f-wy/fw
			ax, ay, an = ax+dx, ay+dy, an+1
			if d := math.Hypot(dx, dy); d > 4 || d > 3 && nch == 3 && !stretched {
				c.Fail("star", "star at %.1f,%.1f is off by %.2f pixels in channel %d", x0, y0, math.Hypot(dx, dy), k)
			}
		}
	}
	if an == 0 {
		return
	}
	if math.Hypot(ax, ay)/an > 0.9 {
		c.Fail("star", "stars are off by %.2f pixels on average", math.Hypot(ax, ay)/an)
	}
	if nch == 3 && !stretched {
		for k := range ratio {
			m := 0.0
			for _, q := range ratio[k] {
				m += q / float64(len(ratio[k]))
			}
			for _, q := range ratio[k] {
				c.Note("star", q/m-1)
				if math.Abs(q/m-1) > 0.2 {
					c.Fail("color", "channel %d: the light of a star is off by %.0f %%", k, 100*(q/m-1))
				}
			}
		}
		m := (flux[0] + flux[1] + flux[2]) / 3
		for k := range flux {
			c.Note("balance", flux[k]/m-1)
			if math.Abs(flux[k]/m-1) > 0.3 {
				c.Fail("tint", "the stars are not white on average: red %.4g, green %.4g, blue %.4g", flux[0], flux[1], flux[2])
			}
		}
	}
}
