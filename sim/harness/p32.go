package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P32: whatever the settings of a job, it ends with a result or an error.
func init() {
	register(&Prop{ID: "P32", Quick: 120000, Rule: "Each case draws 1-4 steps of any kind with settings of any value (zero, negative, tiny, huge, unknown modes, odd texts), writes them as the JSON text of a job, and runs it on 0-4 frames, monochrome or color, of any size from one pixel, with or without stars, uniform or with undefined pixels, on a drawn thread count and schedule. Non-trivial: at least one frame.", Run: runP32})
}

// wildFields gives settings any values a JSON text can express.
func wildFields(r *R, v reflect.Value, huge bool, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if r.N(8) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
			if o, ok := v.Interface().(ops.Operator); ok { // start from a proper instance
				for _, t := range opTypes {
					d := ops.GetOperatorFactory(t)()
					if reflect.TypeOf(d) == reflect.TypeOf(o) {
						v.Set(reflect.ValueOf(d))
					}
				}
			}
		}
		if s, ok := v.Interface().(*ops.OpSequence); ok {
			*s = *ops.NewOpSequence()
			for k := r.N(3); k > 0; k-- {
				s.Append(wildOp(r, huge, depth+1))
			}
			return
		}
		wildFields(r, v.Elem(), huge, depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ft := v.Type().Field(i)
			if ft.Anonymous || ft.PkgPath != "" || notASetting[ft.Name] {
				continue
			}
			if r.N(3) > 0 {
				wildFields(r, v.Field(i), huge, depth)
			}
		}
	case reflect.Float32:
		x := []float64{0, 1, -1, 0.5, 100, 1e-30, 2, 3}[r.N(8)]
		switch r.N(3) {
		case 0:
			x = r.F()
		case 1:
			x = r.Norm() * 5
		}
		if huge && r.N(3) == 0 {
			x = []float64{1e30, -1e30, math.MaxFloat32, 1e6}[r.N(4)]
		}
		v.SetFloat(x)
	case reflect.Int, reflect.Int32, reflect.Int64:
		x := int64(r.N(12) - 2)
		if r.N(4) == 0 {
			x = int64(r.N(200) - 100)
		}
		if huge && r.N(3) == 0 {
			x = []int64{math.MaxInt32, math.MinInt32, 1 << 20, 1 << 30}[r.N(4)]
		}
		v.SetInt(x)
	case reflect.Bool:
		v.SetBool(r.N(2) == 0)
	case reflect.String:
		al := []string{"", "", "in0.fits", "in1.fits", "in*.fits", "out%d.fits", "out.jpg", "out.tiff", "out.html", "%", "%d%d.fits", "[", "*", "R", "G", "B", "r", "RGGB", "GRBG", "%starsHFR", "%location", "0", "1", "-1", "99999999999999999999", "nothing.fits", "sub/x.fits"}
		v.SetString(al[r.N(len(al))])
	case reflect.Slice:
		n := r.N(4)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			wildFields(r, s.Index(i), huge, depth)
		}
		v.Set(s)
	}
}

func wildOp(r *R, huge bool, depth int) ops.Operator {
	if depth < 3 && r.N(10) == 0 {
		s := ops.NewOpSequence()
		for k := r.N(4); k > 0; k-- {
			s.Append(wildOp(r, huge, depth+1))
		}
		return s
	}
	o := ops.GetOperatorFactory(opTypes[r.N(len(opTypes))])()
	wildFields(r, reflect.ValueOf(o).Elem(), huge, depth)
	return o
}

// wildImage draws an image of any size and content.
func wildImage(r *R, id, w, h int, more []int32) *fits.Image {
	n := w * h
	for _, m := range more {
		n *= int(m)
	}
	d := make([]float32, n)
	kind := r.N(6)
	for i := range d {
		switch kind {
		case 0:
			d[i] = 0.5
		case 1:
			d[i] = float32(r.F())
		case 2:
			d[i] = float32(r.Norm() * 1000)
		default:
			d[i] = float32(0.1 + 0.01*r.Norm())
		}
	}
	if kind >= 3 {
		for k := r.N(8); k > 0; k-- {
			x, y, p := r.N(w), r.N(h), 0.3+0.6*r.F()
			for dy := -3; dy <= 3; dy++ {
				for dx := -3; dx <= 3; dx++ {
					if x+dx >= 0 && x+dx < w && y+dy >= 0 && y+dy < h {
						for pl := 0; pl < n; pl += w * h {
							d[pl+(y+dy)*w+x+dx] += float32(p * math.Exp(-float64(dx*dx+dy*dy)/2))
						}
					}
				}
			}
		}
	}
	if kind == 4 {
		for k := r.N(n + 1); k > 0; k-- {
			d[r.N(n)] = float32(math.NaN())
		}
	}
	f := fits.NewImageFromNaxisn(append([]int32{int32(w), int32(h)}, more...), d)
	f.ID = id
	return f
}

func runP32(c *Case) {
	r := c.Rand("job")
	huge := c.Bool("huge", 1, 3)
	steps := c.Pick("steps", 1, 1, 1, 2, 3, 4)
	job := ops.NewOpSequence()
	// the state which earlier steps of a real job leave
	prelude := c.PickS("prelude", "none", "stars", "reference", "both", "color")
	switch prelude {
	case "stars":
		job.Append(pre.NewOpStarDetect(5, 3, 0, 1, ""))
	case "reference":
		job.Append(pre.NewOpStarDetect(5, 3, 0, 1, ""), ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", nil))
	case "both":
		job.Append(pre.NewOpStarDetect(5, 3, 0, 1, ""), ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", nil), ref.NewOpSelectReference(ref.SRHisto, "%location", nil))
	case "color":
		job.Append(pre.NewOpStarDetect(5, 3, 0, 1, ""), ref.NewOpSelectReference(ref.SRAlign, "0", nil), rgb.NewOpRGBCombine())
	}
	for i := 0; i < steps; i++ {
		job.Append(wildOp(r, huge, 0))
	}
	b, err := json.Marshal(job)
	if err != nil {
		c.Fail("encode", "%v", err)
	}
	n := c.Int("n", 0, 4)
	if prelude == "color" {
		n = c.Int("channels", 3, 4)
	}
	w, h := c.Int("w", 1, 40), c.Int("h", 1, 40)
	var more []int32 // further dimensions
	if prelude != "color" || c.Bool("cubes", 1, 20) {
		more = [][]int32{nil, {3}, {2}, {4}, {1}, {1, 3}}[c.Pick("dims", 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5)]
	}
	c.Note("job %s", b)
	dr := c.Rand("data")
	var in []*fits.Image
	for i := 0; i < n; i++ {
		if prelude != "color" && dr.N(8) == 0 {
			w, h = 1+dr.N(40), 1+dr.N(40)
		}
		in = append(in, wildImage(dr, i, w, h, more))
	}
	fs := vsim.NewFS()
	fs.Put("sub/keep.txt", nil)
	for i := 0; i < 2; i++ {
		fs.Put(fmt.Sprintf("in%d.fits", i), fitsF32(w, h, randData(dr, w*h, 0, 1), "1.0"))
	}
	done := false
	res := c.Sim("job", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 4), LS: c.Pick("ls", 1, 1, 2, 3, 5), StepCap: 3000000}, func() {
		op, err := decodeJob(b)
		if err == nil {
			runJob(op, promisesOf(in...), newCtx(vsim.NewLogSink(), c.Pick("mem", 1, 10, 1000)), false)
		}
		done = true
	})
	if !done || res.Outcome != "ok" {
		c.Fail("crash", "job %s did not end: %s %s", b, res.Outcome, res.Detail)
	}
	if res.Leaked > 0 || len(res.OpenFiles) > 0 {
		c.Fail("leak", "job %s left %d tasks and files %v", b, res.Leaked, res.OpenFiles)
	}
	if n > 0 {
		c.Nontrivial()
	}
}
