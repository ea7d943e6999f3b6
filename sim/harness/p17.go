package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P17: job descriptions in JSON.
func init() {
	register(&Prop{ID: "P17", Quick: 60000, Rule: "Each case draws a tree of operators of random kinds and settings (arbitrary strings and finite numbers), or one of the command pipelines or pixel operations with input files; writes it as JSON, reads it back, optionally with settings left out, in another order, or damaged, and compares settings, defaults, results and output files of both jobs on different thread counts and schedules. Non-trivial: a job was run, or a tree of several operators decoded.", Run: runP17})
}

var opTypes = []string{"HSLUnsharpMask", "align", "backExtract", "badPixel", "bin", "calibrate", "debandHoriz", "debandVert", "debayer", "exportStats", "filter", "gamma", "gammaPP", "gaussianBlur", "hslApplyLum", "hslGamma", "hslGammaPP", "hslMidtones", "hslNeutralizeBackground", "hslRotateHue", "hslSCNR", "hslSaturationGamma", "hslScaleBlack", "hslScaleOffsetChannel", "hslSelectiveSaturation", "hslStretch", "hsluvToRGB", "load", "loadMany", "matchHist", "midtones", "normRange", "rgbBalance", "rgbCombine", "rgbToHSLuv", "save", "scaleBlack", "scaleOffset", "selectRef", "stack", "stackBatches", "starDetect", "stretch", "unsharpMask"}

// exported fields of operators which hold state while a job runs
var notASetting = map[string]bool{"Aligner": true, "RefFrameLoc": true, "Apply": true, "Steps": true}

// setFields gives random values to all settings of an operator.
func setFields(r *R, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
			if o, ok := v.Interface().(ops.Operator); ok { // start from a proper instance
				for _, t := range opTypes {
					d := ops.GetOperatorFactory(t)()
					if reflect.TypeOf(d) == reflect.TypeOf(o) {
						v.Set(reflect.ValueOf(d))
					}
				}
			}
		}
		if s, ok := v.Interface().(*ops.OpSequence); ok {
			*s = *ops.NewOpSequence()
			for k := r.N(3); k > 0; k-- {
				s.Append(randOp(r, depth+1))
			}
			return
		}
		setFields(r, v.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ft := v.Type().Field(i)
			if ft.Anonymous || ft.PkgPath != "" || notASetting[ft.Name] {
				continue
			}
			setFields(r, v.Field(i), depth)
		}
	case reflect.Float32:
		x := float32(r.Norm() * 10)
		switch r.N(6) {
		case 4:
			x = 0
		case 0:
			x = math.Float32frombits(uint32(r.U()))
			if isNaN(x) || math.IsInf(float64(x), 0) {
				x = 1e-40
			}
		case 1:
			x = float32(r.N(20)) / 4
		}
		v.SetFloat(float64(x))
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.N(2000) - 1000))
		if r.N(4) == 0 {
			v.SetInt(0)
		}
	case reflect.Bool:
		v.SetBool(r.N(2) == 0)
	case reflect.String:
		al := []string{"a", "B", "7", "%d", "%04d", ".fits", "\"", "\\", "<", "&", "é", "\n", "漢", " ", "*", "{", "]"}
		s := ""
		for k := r.N(6); k > 0; k-- {
			s += al[r.N(len(al))]
		}
		v.SetString(s)
	case reflect.Slice:
		n := r.N(4)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			setFields(r, s.Index(i), depth)
		}
		v.Set(s)
	}
}

func randOp(r *R, depth int) ops.Operator {
	if depth < 3 && r.N(6) == 0 {
		s := ops.NewOpSequence()
		for k := r.N(4); k > 0; k-- {
			s.Append(randOp(r, depth+1))
		}
		return s
	}
	o := ops.GetOperatorFactory(opTypes[r.N(len(opTypes))])()
	setFields(r, reflect.ValueOf(o), depth)
	return o
}

// opText describes the settings of an operator tree, by reflection instead of JSON.
func opText(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if s, ok := v.Interface().(*ops.OpSequence); ok {
			t := "seq:" + s.Type + "["
			for _, x := range s.Steps {
				t += opText(reflect.ValueOf(x)) + ","
			}
			return t + "]"
		}
		if v.Kind() == reflect.Interface {
			return opText(v.Elem())
		}
		return v.Type().String() + opText(v.Elem())
	case reflect.Struct:
		t := "{"
		for i := 0; i < v.NumField(); i++ {
			ft := v.Type().Field(i)
			if ft.PkgPath != "" || notASetting[ft.Name] || ft.Type.Kind() == reflect.Func {
				continue
			}
			t += ft.Name + ":" + opText(v.Field(i)) + ";"
		}
		return t + "}"
	case reflect.Slice:
		t := "["
		for i := 0; i < v.Len(); i++ {
			t += opText(v.Index(i)) + ","
		}
		return t + "]"
	case reflect.Float32:
		return fmt.Sprintf("%08x", f32bits(float32(v.Float())))
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func runP17(c *Case) {
	for _, t := range opTypes {
		if ops.GetOperatorFactory(t) == nil {
			c.Fail("unknown-type", "operators of type %s cannot be read from JSON", t)
		}
	}
	r := c.Rand("ops")
	switch c.Pick("kind", 0, 0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 3, 4) {
	case 0:
		jsonRoundTrip(c, r)
	case 1:
		jsonDefaults(c, r)
	case 2:
		jsonDamage(c, r)
	case 3:
		jsonPixelOp(c, r)
	case 4:
		if c.Bool("tree", 1, 4) {
			jsonPipeline(c, r)
		} else {
			jsonRoundTrip(c, r)
		}
	}
}

func decodeJob(b []byte) (*ops.OpSequence, error) {
	s := ops.NewOpSequence()
	err := json.Unmarshal(b, s)
	return s, err
}

func jsonRoundTrip(c *Case, r *R) {
	s := ops.NewOpSequence()
	n := c.Int("steps", 0, 5)
	for i := 0; i < n; i++ {
		s.Append(randOp(r, 0))
	}
	var b []byte
	var err, err2 error
	var t *ops.OpSequence
	c.Sim("json", Opt{Explore: true, NumCPU: 2}, func() {
		b, err = json.Marshal(s)
		if err == nil {
			t, err2 = decodeJob(b)
		}
	})
	if err != nil {
		c.Fail("encode", "%v", err)
	}
	if err2 != nil {
		c.Fail("decode", "%s: %v", b, err2)
	}
	if x, y := opText(reflect.ValueOf(s)), opText(reflect.ValueOf(t)); x != y {
		k := 0
		for k < len(x) && k < len(y) && x[k] == y[k] {
			k++
		}
		f := k - 60
		if f < 0 {
			f = 0
		}
		c.Fail("settings", "settings changed from ...%.160s to ...%.160s", x[f:], y[f:])
	}
	// generic view: every setting is present under its name
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil || m["type"] != "seq" {
		c.Fail("encode", "%s: %v", b, err)
	}
	if n > 1 {
		c.Nontrivial()
	}
	c.Mix(hstr(opText(reflect.ValueOf(s))))
	c.Probe("round trip")
}

// jsonDefaults leaves out some settings of one operator and expects the defaults for them.
func jsonDefaults(c *Case, r *R) {
	typ := opTypes[c.Int("type", 0, len(opTypes)-1)]
	def := ops.GetOperatorFactory(typ)()
	o := ops.GetOperatorFactory(typ)()
	setFields(r, reflect.ValueOf(o), 2)
	flat := func(x ops.Operator) (map[string]json.RawMessage, error) {
		b, err := json.Marshal(x)
		if err != nil {
			return nil, err
		}
		var m map[string]json.RawMessage
		return m, json.Unmarshal(b, &m)
	}
	m, err := flat(o)
	d, err2 := flat(def)
	if err != nil || err2 != nil {
		c.Fail("encode", "%s: %v %v", typ, err, err2)
	}
	ks := map[string]int{}
	for k := range m {
		ks[k] = 1
	}
	want := map[string]string{}
	in := "{"
	order := sortedKeys(ks)
	for i := range order { // any order of the settings
		j := i + r.N(len(order)-i)
		order[i], order[j] = order[j], order[i]
	}
	left := 0
	for _, k := range order {
		if k != "type" && r.N(2) == 0 {
			want[k] = string(d[k])
			left++
			continue
		}
		want[k] = string(m[k])
		if len(in) > 1 {
			in += ", "
		}
		in += fmt.Sprintf("%q: %s", k, m[k])
	}
	in += "}"
	var got ops.Operator
	c.Sim("json", Opt{NumCPU: 2}, func() {
		var s *ops.OpSequence
		s, err = decodeJob([]byte("{\"type\":\"seq\",\"steps\":[" + in + "]}"))
		if err == nil && len(s.Steps) == 1 {
			got = s.Steps[0]
		}
	})
	if err != nil {
		c.Fail("decode", "%s: %v", in, err)
	}
	if got == nil || got.GetType() != typ || reflect.TypeOf(got) != reflect.TypeOf(o) {
		c.Fail("decode", "%s was decoded as %T", in, got)
	}
	g, err := flat(got)
	if err != nil {
		c.Fail("encode", "%v", err)
	}
	for k, w := range want {
		if string(g[k]) != w && !(len(g[k]) == 0 && w == "null") {
			c.Fail("default", "%s with %s: setting %s is %s, expected %s", typ, in, k, g[k], w)
		}
	}
	c.Mix(hstr(in))
	if left > 0 {
		c.Nontrivial()
		c.Probe("defaults")
	}
}

// collectLeaves visits the settings in a decoded description, in a fixed order.
func collectLeaves(v interface{}, fn func(key string, old interface{}, set func(interface{}))) {
	switch x := v.(type) {
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			switch x[k].(type) {
			case map[string]interface{}:
				collectLeaves(x[k], fn)
			case nil:
			default:
				fn(k, x[k], func(n interface{}) { x[k] = n })
				collectLeaves(x[k], fn)
			}
		}
	case []interface{}:
		for _, y := range x {
			collectLeaves(y, fn)
		}
	}
}

// jsonDamage decodes damaged descriptions, which must be refused or remain runnable.
func jsonDamage(c *Case, r *R) {
	s := ops.NewOpSequence()
	n := c.Int("steps", 1, 4)
	for i := 0; i < n; i++ {
		s.Append(randOp(r, 1))
	}
	b, err := json.Marshal(s)
	if err != nil {
		c.Fail("encode", "%v", err)
	}
	kind := c.PickS("damage", "truncate", "unknown", "bytes", "type", "garbage", "nonull", "case")
	must := true
	in := append([]byte{}, b...)
	switch kind {
	case "truncate":
		in = in[:r.N(len(in))]
	case "unknown":
		k := bytes.LastIndex(in, []byte("[{\"type\":\""))
		if k <= 0 {
			return
		}
		in = append(append(append([]byte{}, in[:k+10]...), 'x', 'y'), in[k+10:]...)
	case "bytes":
		for k := 1 + r.N(3); k > 0; k-- {
			in[r.N(len(in))] = byte(r.N(256))
		}
		must = false
	case "type": // a value of another kind
		var m interface{}
		if json.Unmarshal(in, &m) != nil {
			return
		}
		var places []func()
		collectLeaves(m, func(key string, old interface{}, set func(interface{})) {
			if key == "type" {
				return
			}
			places = append(places, func() {
				others := []interface{}{true, 7.5, "no", []interface{}{3.5, "x"}, map[string]interface{}{"no": 1}}
				o := others[r.N(len(others))]
				for reflect.TypeOf(o) == reflect.TypeOf(old) {
					o = others[r.N(len(others))]
				}
				set(o)
			})
		})
		if len(places) == 0 {
			return
		}
		places[r.N(len(places))]()
		in, _ = json.Marshal(m)
	case "garbage":
		in = []byte(strings.Repeat("[{\"steps\":", r.N(5)) + "5 true null")
	case "nonull":
		in = bytes.Replace(in, []byte("\"steps\":[{"), []byte("\"steps\":[null,{"), 1)
	case "case":
		in = []byte("{\"type\":\"seq\",\"steps\":{\"type\":\"bin\"}}")
	}
	var t *ops.OpSequence
	c.Sim("json", Opt{NumCPU: 2}, func() {
		t, err = decodeJob(in)
	})
	_ = t
	if must && err == nil {
		c.Fail("accepted", "%s damage was not reported: %s", kind, in)
	}
	c.Nontrivial()
	c.Mix(hstr(string(in)))
	c.Probe("damaged: " + kind)
}

// jsonPixelOp runs one operation and its decoded twin on several images at once.
func jsonPixelOp(c *Case, r *R) {
	name := p18Names[c.Int("op", 0, len(p18Names)-1)]
	w, h := c.Int("w", 2, 16), c.Int("h", 2, 16)
	n := c.Int("n", 1, 3)
	var lum []float32
	log := vsim.NewLogSink()
	o := drawPixOp(r, name, log, lum)
	var in [][]float32
	for i := 0; i < n; i++ {
		in = append(in, drawPix(c.Rand(fmt.Sprint("pix", i)), w*h, o.color, name != "rgbToHSLuv", c.Int("dist", 0, 3)))
	}
	b, err := json.Marshal(ops.NewOpSequence(o.op))
	if err != nil {
		c.Fail("encode", "%s: %v", name, err)
	}
	t, err := decodeJob(b)
	if err != nil {
		c.Fail("decode", "%s: %v", b, err)
	}
	run := func(nm string, op ops.Operator, cpu int, explore bool) (outs []*fits.Image, err error) {
		c.Sim(nm, Opt{Explore: explore, NumCPU: cpu, LS: 1}, func() {
			ctx := newCtx(vsim.NewLogSink(), 64)
			var fs []*fits.Image
			for i := range in {
				if o.color {
					fs = append(fs, mkImg3(i, w, h, clone32(in[i])))
				} else {
					fs = append(fs, mkImg(i, w, h, clone32(in[i])))
				}
			}
			outs, err = runJob(op, promisesOf(fs...), ctx, false)
		})
		return
	}
	a, e1 := run("direct", o.op, 1, false)
	d, e2 := run("decoded", t, c.Int("cpu", 1, 4), true)
	if errStr(e1) != errStr(e2) || len(a) != len(d) {
		c.Fail("outcome", "%s: %v, decoded from %s: %v", name, e1, b, e2)
	}
	for i := range a {
		if k := bitsEq(a[i].Data, d[i].Data); k >= 0 {
			c.Fail("result", "%s: image %d, pixel %d: %g, decoded from %s: %g", name, i, k, a[i].Data[k], b, d[i].Data[k])
		}
	}
	c.Nontrivial()
	c.Probe("pixel operation run")
}

// jsonPipeline runs a command pipeline and its decoded twin on the same files.
func jsonPipeline(c *Case, r *R) {
	kind := c.PickS("pipeline", "stack", "stack", "stats", "stretch", "rgb")
	n := c.Int("n", 2, 4)
	if kind == "rgb" {
		n = 3 + c.Int("lum", 0, 1)
	}
	if kind == "stretch" {
		n = 1
	}
	s := makeScene(c.Rand("scene"), sceneOpt{N: n, W: c.Int("w", 48, 60), H: c.Int("h", 44, 56), NStars: 7, Shift: 2, Dark: c.Bool("dark", 1, 2), Flat: c.Bool("flat", 1, 2), GainSpread: 0.1, NoiseSpread: 0.5, Cosmics: 4})
	var op *ops.OpSequence
	switch kind {
	case "stack", "stats":
		g := drawStack(c, s)
		g.BpLow, g.BpHigh = float32(2+2*r.F()), float32(3+2*r.F())
		g.DebandH, g.DebandV = []float32{0, 50, 30}[r.N(3)], []float32{0, 50, 40}[r.N(3)]
		g.StarRadius, g.StarSig, g.StarBpSig, g.StarInOut = int32(5+r.N(5)), float32(6+6*r.F()), float32(r.N(2)*4), float32(1+r.F())
		if r.N(3) == 0 {
			g.Bin = 2
		}
		if r.N(3) == 0 {
			g.BackGrid = 16
		}
		g.MinStars = r.N(3)
		g.SigLow, g.SigHigh = float32(1.5+r.F()), float32(1.5+r.F())
		g.AlignK, g.AlignT = int32(6+r.N(6)), float32(0.5+r.F())
		g.Stars, g.Back = []string{"", "stars%02d.fits"}[r.N(2)], []string{"", "back%02d.fits"}[r.N(2)]
		g.Tiff, g.Jpg = []string{"", "out.tif"}[r.N(2)], []string{"", "out.jpg"}[r.N(2)]
		op = g.stackOps()
		if kind == "stats" {
			op = g.statsOps()
		}
	case "stretch":
		op = stretchOps("light000.fits", "out.fits", "out.tif", "out.jpg")
	case "rgb":
		op = rgbOps([]string{"light*.fits"}, "out.fits", "out.tif", "out.jpg")
	}
	b, err := json.Marshal(op)
	if err != nil {
		c.Fail("encode", "%v", err)
	}
	t, err := decodeJob(b)
	if err != nil {
		c.Fail("decode", "%s: %v", b, err)
	}
	if c.Bool("null", 1, 6) { // a part of the description is missing: the job may fail, but not crash
		var at [][]int
		for _, k := range []string{"\"debayer\":{", "\"save\":{", "\"starDetect\":{", "\"perBatch\":{"} {
			for f := 0; ; {
				i := bytes.Index(b[f:], []byte(k))
				if i < 0 {
					break
				}
				f += i + len(k)
				e, d := f, 1
				for ; d > 0; e++ {
					switch b[e] {
					case '{':
						d++
					case '}':
						d--
					}
				}
				at = append(at, []int{f - 1, e})
			}
		}
		if len(at) == 0 {
			return
		}
		q := at[r.N(len(at))]
		x := append(append(append([]byte{}, b[:q[0]]...), []byte("null")...), b[q[1]:]...)
		if r.N(2) == 0 {
			x = bytes.Replace(x, []byte("\"mode\":\"%starsHFR\""), []byte("\"mode\":\"light000.fits\""), -1)
		}
		t, err := decodeJob(x)
		if err != nil {
			c.Probe("null refused")
			return
		}
		fs := vsim.NewFS()
		s.write(fs, "light")
		c.Sim("null", Opt{Explore: true, NumCPU: 3, FS: fs, LS: 2}, func() {
			_, err = runJob(t, nil, newCtx(vsim.NewLogSink(), 2000), true)
		})
		c.Probe("null accepted")
		return
	}
	run := func(nm string, op ops.Operator, cpu int, explore bool) (dig string, e string) {
		fs := vsim.NewFS()
		s.write(fs, "light")
		c.Sim(nm, Opt{Explore: explore, NumCPU: cpu, FS: fs, LS: 2}, func() {
			_, err := runJob(op, nil, newCtx(vsim.NewLogSink(), 2000), true)
			e = errStr(err)
		})
		for _, p := range fs.List() {
			if p != "/work/out.html" {
				bb, _ := fs.Get(p)
				dig += p + " " + fileDigest(p, bb) + "\n"
			}
		}
		return
	}
	d1, e1 := run("direct", op, 1, false)
	d2, e2 := run("decoded", t, c.Int("cpu", 1, 5), true)
	if e1 != e2 || d1 != d2 {
		c.Fail("outcome", "%s job: error %q, decoded from JSON %q; files\n%s\nand\n%s", kind, e1, e2, d1, d2)
	}
	c.Nontrivial()
	c.Probe("pipeline " + kind)
	if e1 != "" {
		c.Probe("pipeline failed: " + e1)
	}
}
