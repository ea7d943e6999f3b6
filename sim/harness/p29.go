//go:build cli

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/nlmain"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P29: the command line runs the job its flags describe and its exit status is true.
func init() {
	register(&Prop{ID: "P29", Quick: 900, Rule: "Each case draws a command, input frames, a subset of the flags with values, thread count, schedule, and for a second run disk faults or a disk capacity. Non-trivial: a job was run.", Run: runP29})
}

type cliFlag struct {
	name, cmds string
	node       string // operator type, or save#k for the k-th save from the end
	field      string
	scale      float64
	def        string
	vals       []string
}

// The flags, their documented meaning and default, in terms of the job which is run. The default "-" is not a constant.
var cliFlags = []cliFlag{
	{"debayer", "stats stack", "debayer", "channel", 0, "", []string{"R", "G", "B"}},
	{"cfa", "stats stack", "debayer", "colorFilterArray", 0, "RGGB", []string{"GRBG", "GBRG", "BGGR"}},
	{"debandH", "stats stack", "debandHoriz", "percentile", 1, "0", []string{"50", "33.5"}},
	{"debandHWindow", "stats stack", "debandHoriz", "window", 1, "128", []string{"8", "16"}},
	{"debandHSigma", "stats stack", "debandHoriz", "sigma", 1, "3", []string{"2.5", "4"}},
	{"debandV", "stats stack", "debandVert", "percentile", 1, "0", []string{"45", "20"}},
	{"debandVWindow", "stats stack", "debandVert", "window", 1, "128", []string{"9", "12"}},
	{"debandVSigma", "stats stack", "debandVert", "sigma", 1, "3", []string{"1.5", "5"}},
	{"preScale", "stats stack", "scaleOffset", "scale", 1, "1", []string{"0.5", "2"}},
	{"preOffset", "stats stack", "scaleOffset", "offset", 1, "0", []string{"0.125", "-0.25"}},
	{"binning", "stats stack", "bin", "binSize", 1, "0", []string{"1", "2"}},
	{"starRadius", "stats stack stretch rgb", "starDetect", "radius", 1, "16", []string{"8", "7"}},
	{"starSig", "stats stack stretch rgb", "starDetect", "sigma", 1, "15", []string{"10", "8"}},
	{"starBpSig", "stats stack stretch rgb", "starDetect", "badPixelSigma", 1, "-", []string{"6", "4.5", "0"}},
	{"starInOut", "stats stack stretch rgb", "starDetect", "inOutRatio", 1, "1.4", []string{"1.3", "1.5"}},
	{"backGrid", "stats stack", "backExtract", "gridSize", 1, "0", []string{"16", "12"}},
	{"backHFRFactor", "stats stack", "backExtract", "hfrFactor", 1, "4", []string{"3", "2.5"}},
	{"backSigma", "stats stack", "backExtract", "sigma", 1, "1.5", []string{"2", "3"}},
	{"backClip", "stats stack", "backExtract", "clip", 1, "0", []string{"1", "2"}},
	{"bpSigLow", "stack", "badPixel", "sigmaLow", 1, "3", []string{"4", "2.5"}},
	{"bpSigHigh", "stack", "badPixel", "sigmaHigh", 1, "5", []string{"6", "3.5"}},
	{"histoRef", "stack", "selectRef#0", "mode", 0, "%starsHFR", []string{"%location", "1", "0"}},
	{"alignRef", "stack", "selectRef#1", "mode", 0, "%starsHFR", []string{"%location", "1", "0"}},
	{"alignRef", "stretch", "selectRef#0", "mode", 0, "%starsHFR", []string{"%location", "0"}},
	{"minStars", "stack", "filter", "minStars", 1, "0", []string{"1", "2"}},
	{"normHist", "stack", "matchHist", "mode", 1, "2", []string{"0", "1", "2", "3"}},
	{"alignK", "stack stretch", "align", "k", 1, "20", []string{"8", "10"}},
	{"alignT", "stack stretch", "align", "threshold", 1, "1", []string{"0.75", "2"}},
	{"stMode", "stack", "stack", "mode", 1, "6", []string{"0", "1", "2", "3", "4", "5"}},
	{"stWeight", "stack", "stack", "weighting", 1, "0", []string{"1", "2"}},
	{"stSigLow", "stack", "stack", "sigmaLow", 1, "-1", []string{"2", "3.5"}},
	{"stSigHigh", "stack", "stack", "sigmaHigh", 1, "-1", []string{"2.5", "4"}},
	{"autoLoc", "stretch", "stretch", "location", 0.01, "10", []string{"20", "5"}},
	{"autoScale", "stretch", "stretch", "scale", 0.01, "0.4", []string{"1", "0.5"}},
	{"midtone", "stretch", "midtones", "mid", 1, "0", []string{"5", "2"}},
	{"midBlack", "stretch", "midtones", "black", 1, "2", []string{"3", "1.5"}},
	{"gamma", "stretch", "gamma", "gamma", 1, "1", []string{"1.5", "2"}},
	{"ppGamma", "stretch", "gammaPP", "gamma", 1, "1", []string{"1.25", "3"}},
	{"ppSigma", "stretch", "gammaPP", "sigma", 1, "1", []string{"2", "0.5"}},
	{"scaleBlack", "stretch", "scaleBlack", "location", 0.01, "0", []string{"2", "7"}},
	{"blurSigma", "stretch", "gaussianBlur", "sigma", 1, "0", []string{"1.5", "0.75"}},
	{"usmSigma", "stretch", "unsharpMask", "sigma", 1, "1", []string{"1.5", "2"}},
	{"usmGain", "stretch", "unsharpMask", "gain", 1, "0", []string{"0.5", "1"}},
	{"usmThresh", "stretch", "unsharpMask", "threshold", 1, "1", []string{"2", "0.5"}},
	{"balBlock", "rgb", "rgbBalance", "block", 1, "16", []string{"8", "4"}},
	{"balBorder", "rgb", "rgbBalance", "border", 1, "0.1", []string{"0.05", "0.2"}},
	{"balSkipBright", "rgb", "rgbBalance", "skipBright", 1, "0", []string{"0.1", "0.25"}},
	{"balSkipDim", "rgb", "rgbBalance", "skipDim", 1, "0.5", []string{"0.4", "0"}},
	{"balShR", "rgb", "rgbBalance", "shadows.R", 1, "1", []string{"0.9", "0.8"}},
	{"balShG", "rgb", "rgbBalance", "shadows.G", 1, "1", []string{"0.7", "0.85"}},
	{"balShB", "rgb", "rgbBalance", "shadows.B", 1, "1", []string{"0.95", "0.6"}},
	{"balHiR", "rgb", "rgbBalance", "highlights.R", 1, "1", []string{"0.9", "0.8"}},
	{"balHiG", "rgb", "rgbBalance", "highlights.G", 1, "1", []string{"0.7", "0.85"}},
	{"balHiB", "rgb", "rgbBalance", "highlights.B", 1, "1", []string{"0.95", "0.6"}},
	{"usmSigma", "rgb", "HSLUnsharpMask", "sigma", 1, "1", []string{"1.5", "2"}},
	{"usmGain", "rgb", "HSLUnsharpMask", "gain", 1, "0", []string{"0.5", "1"}},
	{"usmThresh", "rgb", "HSLUnsharpMask", "threshold", 1, "1", []string{"2", "0.5"}},
	{"neutSigmaLow", "rgb", "hslNeutralizeBackground", "sigmaLow", 1, "-1", []string{"0.5", "1"}},
	{"neutSigmaHigh", "rgb", "hslNeutralizeBackground", "sigmaHigh", 1, "-1", []string{"2", "3"}},
	{"chromaGamma", "rgb", "hslSaturationGamma", "gamma", 1, "1", []string{"1.5", "2"}},
	{"chromaSigma", "rgb", "hslSaturationGamma", "sigma", 1, "1", []string{"0.5", "2"}},
	{"chromaFrom", "rgb", "hslSelectiveSaturation", "from", 1, "295", []string{"200", "10"}},
	{"chromaTo", "rgb", "hslSelectiveSaturation", "to", 1, "40", []string{"300", "100"}},
	{"chromaBy", "rgb", "hslSelectiveSaturation", "factor", 1, "1", []string{"0.5", "2"}},
	{"rotFrom", "rgb", "hslRotateHue", "from", 1, "100", []string{"50", "0"}},
	{"rotTo", "rgb", "hslRotateHue", "to", 1, "190", []string{"200", "80"}},
	{"rotBy", "rgb", "hslRotateHue", "offset", 1, "0", []string{"-30", "20"}},
	{"rotSigma", "rgb", "hslRotateHue", "sigma", 1, "1", []string{"0.5", "2"}},
	{"scnr", "rgb", "hslSCNR", "factor", 1, "0", []string{"0.5", "0.1"}},
	{"autoLoc", "rgb", "hslStretch", "location", 0.01, "10", []string{"20", "5"}},
	{"autoScale", "rgb", "hslStretch", "scale", 0.01, "0.4", []string{"1", "0.5"}},
	{"midtone", "rgb", "hslMidtones", "mid", 1, "0", []string{"5", "2"}},
	{"midBlack", "rgb", "hslMidtones", "black", 1, "2", []string{"3", "1.5"}},
	{"gamma", "rgb", "hslGamma", "gamma", 1, "1", []string{"1.5", "2"}},
	{"ppGamma", "rgb", "hslGammaPP", "gamma", 1, "1", []string{"1.25", "3"}},
	{"ppSigma", "rgb", "hslGammaPP", "sigma", 1, "1", []string{"2", "0.5"}},
	{"lumScale", "rgb", "hslScaleOffsetChannel", "scale", 1, "1", []string{"0.75", "1.1"}},
	{"lumOffset", "rgb", "hslScaleOffsetChannel", "offset", 1, "0", []string{"0.05", "-0.01"}},
	{"scaleBlack", "rgb", "hslScaleBlack", "location", 0.01, "0", []string{"2", "7"}},
	{"jpgGamma", "stack stretch rgb", "save#-1", "gamma", 1, "1", []string{"2.2", "1.5"}},
	// what no flag changes
	{"", "stack stretch rgb", "save#-3", "gamma", 1, "1", nil},
	{"", "stack stretch rgb", "save#-2", "gamma", 1, "1", nil},
	{"", "stack stretch rgb", "save#-3", "saveMode", 1, "0", nil}, // full range
	{"", "stack", "save#-2", "saveMode", 1, "3", nil},             // 0 to 65535
	{"", "stack", "save#-1", "saveMode", 1, "3", nil},
	{"", "stretch rgb", "save#-2", "saveMode", 1, "1", nil}, // 0 to 1
	{"", "stretch rgb", "save#-1", "saveMode", 1, "1", nil},
	{"", "stats stack", "save#0", "saveMode", 1, "0", nil},
	{"", "stack", "save#1", "saveMode", 1, "0", nil},
	{"", "stack", "align", "oobMode", 1, "0", nil},                 // not a number
	{"", "stretch", "align", "oobMode", 1, "2", nil},               // own location
	{"", "rgb", "hslScaleOffsetChannel", "channelID", 1, "2", nil}, // luminance
	{"", "rgb", "selectRef", "mode", 0, "%rgb", nil},
	{"", "rgb stretch", "selectRef", "target", 1, "0", nil},
	{"", "stack", "selectRef#0", "target", 1, "1", nil},
	{"", "stack", "selectRef#1", "target", 1, "0", nil},
}

// The steps of each command.
var cliSteps = map[string]string{
	"stats":   "loadMany calibrate badPixel debayer debandHoriz debandVert scaleOffset bin starDetect backExtract exportStats save",
	"stack":   "loadMany stackBatches calibrate badPixel debayer debandHoriz debandVert scaleOffset bin starDetect backExtract exportStats save selectRef selectRef filter matchHist align save stack starDetect save starDetect save save save",
	"stretch": "loadMany normRange stretch midtones gamma gammaPP scaleBlack starDetect selectRef align gaussianBlur unsharpMask save save save",
	"rgb":     "loadMany starDetect selectRef rgbCombine rgbBalance rgbToHSLuv hslApplyLum HSLUnsharpMask hslNeutralizeBackground hslSaturationGamma hslSelectiveSaturation hslRotateHue hslSCNR hslStretch hslMidtones hslGamma hslGammaPP hslScaleOffsetChannel hslScaleBlack hsluvToRGB save save save",
}

// cliRun runs the command with arguments on the disk.
func (c *Case) cliRun(name string, o Opt, args ...string) (r *vsim.Result, code int) {
	o.Raw, o.NoDrain = true, true
	vsim.Args = append([]string{"nightlight"}, args...)
	c.Note("%s: nightlight %s", name, strings.Join(args, " "))
	r = c.Sim(name, o, nlmain.Main)
	switch r.Outcome {
	case "ok":
	case "exit":
		code = r.ExitCode
		if code == 0 {
			c.Fail("exit-status", "%s: exits in the middle with status 0", name)
		}
	case "panic":
		if !containsAny(r.Detail, "Unable to open log file", "error chroot(", "error chdir(", "error setuid(", "error serving ", "Error opening", "Error unmarshaling JSON") {
			c.Fail("panic", "%s: panicked: %s [%s]", name, r.Detail, vsim.ShortStack(r.Stack))
		}
		code = 2
	default:
		c.Fail(r.Outcome, "%s: %s", name, r.Detail)
	}
	return r, code
}

func jsonNodes(v interface{}, out *[]map[string]interface{}) {
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			jsonNodes(e, out)
		}
	case map[string]interface{}:
		if _, ok := x["type"]; ok {
			*out = append(*out, x)
		}
		// operators nested in fields, in a fixed order; the operator's own save and star detection come last
		for _, k := range []string{"steps", "perBatch"} {
			if e, ok := x[k]; ok {
				jsonNodes(e, out)
			}
		}
	}
}

// printedJob returns the job the log shows.
func printedJob(stdout []byte) (raw json.RawMessage, nodes []map[string]interface{}) {
	i := bytes.Index(stdout, []byte("Running JSON job:\n"))
	if i < 0 {
		return nil, nil
	}
	d := json.NewDecoder(bytes.NewReader(stdout[i+len("Running JSON job:\n"):]))
	if d.Decode(&raw) != nil {
		return nil, nil
	}
	var v interface{}
	json.Unmarshal(raw, &v)
	jsonNodes(v, &nodes)
	return raw, nodes
}

func findNodes(nodes []map[string]interface{}, spec string) []map[string]interface{} {
	typ, idx := spec, ""
	if i := strings.IndexByte(spec, '#'); i >= 0 {
		typ, idx = spec[:i], spec[i+1:]
	}
	var m []map[string]interface{}
	for _, n := range nodes {
		if n["type"] == typ {
			m = append(m, n)
		}
	}
	if idx != "" {
		k, _ := strconv.Atoi(idx)
		if k < 0 {
			k += len(m)
		}
		if k < 0 || k >= len(m) {
			return nil
		}
		return m[k : k+1]
	}
	return m
}

func nodeField(n map[string]interface{}, field string) interface{} {
	var v interface{} = n
	for _, f := range strings.Split(field, ".") {
		m, _ := v.(map[string]interface{})
		v = m[f]
	}
	return v
}

func runP29(c *Case) {
	cmd := c.PickS("cmd", "stack", "stack", "stack", "stats", "stretch", "rgb", "rgb", "other")
	cpu := c.Int("cpu", 1, 4)
	if cmd == "other" {
		p29Other(c, cpu)
		return
	}
	c.Nontrivial()
	r := c.Rand("cli")
	n := c.Int("n", 2, 4)
	switch cmd {
	case "rgb":
		n = 3 + c.Int("lum", 0, 1)
	case "stretch":
		n = 1
	}
	cal := cmd == "stack" || cmd == "stats"
	s := makeScene(r, sceneOpt{N: n, W: c.Int("w", 48, 56), H: c.Int("h", 44, 52), NStars: 7, Shift: 2, Dark: cal && c.Bool("dark", 1, 2), Flat: cal && c.Bool("flat", 1, 2), GainSpread: 0.1, NoiseSpread: 0.5, Cosmics: 4})
	disk := func() *vsim.FS {
		fs := vsim.NewFS()
		s.write(fs, "d/light")
		// a file whose name is the command's
		if r2 := c.Int("named", 0, 3); r2 == 0 {
			fs.Put(cmd, []byte("not an image"))
		}
		return fs
	}
	var args []string
	want := map[string]string{} // flag -> value
	def := cmd == "stats"       // the default star detection finds nothing in small frames
	set := func(f, v string) { args = append(args, "-"+f, v); want[f] = v }
	ext := c.PickS("ext", ".fits", ".fits", ".fit", ".fits.gz", ".tif", ".fts")
	out := "d/out" + ext
	set("out", out)
	logTo := c.PickS("log", "%auto", "run.log", "run.log", "")
	set("log", logTo)
	opt := func(f string, vals ...string) {
		if c.Bool("f."+f, 1, 4) {
			set(f, vals[c.Int("v."+f, 0, len(vals)-1)])
		}
	}
	if cmd != "stats" {
		opt("jpg", "", "d/view.jpg", "%auto")
		opt("tiff", "d/view.tif", "%auto")
	}
	if cal {
		opt("exportStats", "", "d/stats.html", "%auto")
		opt("pre", "d/pre%02d.fits", "d/pre%d.tif", "d/pre%04d.fits.gz")
		opt("stars", "d/stars%02d.fits")
		opt("back", "d/back%02d.fits")
		if s.Dark != nil {
			set("dark", "dark.fits")
		}
		if s.Flat != nil {
			set("flat", "flat.fits")
		}
	}
	if cmd == "stack" {
		opt("post", "d/post%02d.fits", "d/post%d.jpg")
		opt("batch", "d/batch%02d.fits")
	}
	if c.Bool("tuned", 9, 10) {
		if c.Bool("star", 3, 4) {
			set("starRadius", "8")
			set("starSig", "10")
			set("alignK", "8")
			def = true
		}
		few := c.Int("few", 3, 12)
		for i, f := range cliFlags {
			if strings.Contains(" "+f.cmds+" ", " "+cmd+" ") && f.name != "" && want[f.name] == "" && c.Bool(fmt.Sprintf("t%d.%s", i, f.name), 1, few) {
				set(f.name, f.vals[c.Int(fmt.Sprintf("u%d", i), 0, len(f.vals)-1)])
				def = false
			}
		}
	}
	ls := 3
	if c.Bool("ls", 1, 3) {
		ls = c.Int("lsEst", 0, 4)
		set("lsEst", fmt.Sprint(ls))
		def = false
	}
	mem := c.Pick("mem", 500, 500, 300, 1)
	set("stMemory", fmt.Sprint(mem))
	inputs := []string{"d/light*.fits*"}
	if c.Bool("listed", 1, 3) {
		inputs = nil
		for i := range s.Frames {
			inputs = append(inputs, fmt.Sprintf("d/light%03d.fits", i))
		}
	}
	full := append(append([]string{}, args...), cmd)
	full = append(full, inputs...)

	clean := disk()
	res, code := c.cliRun("clean", Opt{Explore: true, FS: clean, NumCPU: cpu}, full...)
	failText := func(r *vsim.Result) string {
		t := string(r.Stdout)
		if i := strings.LastIndex(t, "Error: "); i >= 0 {
			return t[i:]
		}
		return ""
	}
	if code != 0 {
		if failText(res) == "" {
			c.Fail("silent-failure", "%s exits with status %d without an error message", cmd, code)
		}
		if def {
			c.Fail("spurious-error", "%s with default settings fails: %s", cmd, failText(res))
		}
		c.Probe("refused")
	} else {
		if failText(res) != "" {
			c.Fail("exit-status", "%s exits with status 0 after %q", cmd, failText(res))
		}
		c.Probe(cmd)
	}
	// the log file has what was printed
	lf := logTo
	auto := strings.TrimSuffix(out, ext)
	if ext == ".fits.gz" {
		auto = "d/out.fits"
	}
	if lf == "%auto" {
		lf = auto + ".log"
	}
	if lf != "" {
		if b, ok := clean.Get(lf); !ok || !bytes.Equal(b, res.Stdout) {
			c.Fail("log", "%s: log file %s has %d bytes (present: %v), %d bytes were printed", cmd, lf, len(b), ok, len(res.Stdout))
		}
	}
	raw, nodes := printedJob(res.Stdout)
	if raw == nil {
		c.Fail("no-job", "%s: the log does not show the job: %.300q", cmd, res.Stdout)
	}
	// the steps are those of the command
	var types []string
	parts := map[string]string{}
	for _, n := range nodes {
		if t := fmt.Sprint(n["type"]); t != "seq" {
			types = append(types, t)
			b, _ := json.Marshal(n)
			parts[t] = string(b)
		}
	}
	if t := strings.Join(types, " "); t != cliSteps[cmd] {
		c.Fail("steps", "%s has the steps %s, not %s", cmd, t, cliSteps[cmd])
	}
	// and steps within steps have the same settings
	for _, x := range [][3]string{{"selectRef", "starDetect", "starDetect"}, {"badPixel", "debayer", "debayer"}} {
		for _, n := range findNodes(nodes, x[0]) {
			if b, _ := json.Marshal(n[x[1]]); string(b) != parts[x[2]] {
				c.Fail("flag", "%s: %s within %s has the settings %s instead of %s", cmd, x[1], x[0], b, parts[x[2]])
			}
		}
	}
	// every flag reached its operator
	check := func(name, spec, field string, w interface{}, scale float64) {
		ns := findNodes(nodes, spec)
		if len(ns) == 0 {
			c.Fail("flag", "%s: the job has no operator %s for flag -%s", cmd, spec, name)
		}
		for _, n := range ns {
			g := nodeField(n, field)
			if scale == 0 {
				if g != w {
					c.Fail("flag", "%s: -%s %q gives %s.%s %v", cmd, name, w, spec, field, g)
				}
				continue
			}
			x, _ := strconv.ParseFloat(w.(string), 64)
			gf, ok := g.(float64)
			if !ok || math.Abs(gf-x*scale) > 1e-6*math.Abs(x*scale)+1e-9 {
				c.Fail("flag", "%s: -%s %v gives %s.%s %v", cmd, name, w, spec, field, g)
			}
		}
	}
	for _, f := range cliFlags {
		if !strings.Contains(" "+f.cmds+" ", " "+cmd+" ") {
			continue
		}
		w, ok := want[f.name]
		if !ok {
			w = f.def
			if f.name == "starBpSig" {
				w = map[string]string{"stats": "0", "stack": "5", "stretch": "-1", "rgb": "0"}[cmd]
			}
			if cmd == "stats" && f.name == "normHist" {
				w = "0"
			}
		}
		check(f.name, f.node, f.field, w, f.scale)
	}
	val := func(f, suffix, dflt string) string {
		v, ok := want[f]
		if !ok {
			v = dflt
		}
		if v == "%auto" {
			v = auto + suffix
		}
		return v
	}
	jpg, tif := val("jpg", ".jpg", "%auto"), val("tiff", ".tif", "")
	if cmd != "stats" {
		check("out", "save#-3", "filePattern", out, 0)
		check("tiff", "save#-2", "filePattern", tif, 0)
		check("jpg", "save#-1", "filePattern", jpg, 0)
	}
	if cal {
		check("exportStats", "exportStats", "fileName", val("exportStats", ".html", "%auto"), 0)
		check("dark", "calibrate", "dark", want["dark"], 0)
		check("flat", "calibrate", "flat", want["flat"], 0)
		check("pre", "save#0", "filePattern", want["pre"], 0)
		check("stars", "starDetect", "save.filePattern", want["stars"], 0)
		check("back", "backExtract", "save.filePattern", want["back"], 0)
	}
	if cmd == "stack" {
		check("post", "save#1", "filePattern", want["post"], 0)
		check("batch", "save#2", "filePattern", want["batch"], 0)
	}
	lm := findNodes(nodes, "loadMany")
	if len(lm) != 1 || fmt.Sprint(lm[0]["filePatterns"]) != fmt.Sprint(inputs) {
		c.Fail("inputs", "%s: inputs %v give the patterns %v", cmd, inputs, lm)
	}
	// what is asked for exists, and nothing else
	if code == 0 && cmd != "stats" {
		for _, p := range []string{out, tif, jpg} {
			if p == "" {
				continue
			}
			if b, ok := clean.Get(p); !ok || len(b) == 0 {
				c.Fail("missing-output", "%s succeeded without writing %s", cmd, p)
			}
		}
	}
	skip := map[string]bool{"/work/" + lf: true, "/work/job.json": true}
	html := val("exportStats", ".html", "%auto")
	dj := &job{html: []string{html}}
	compare := func(fs *vsim.FS, what string) {
		w, g := dj.digest(clean), dj.digest(fs)
		for p, d := range w {
			if !skip[p] && g[p] != d {
				c.Fail("wrong-output", "%s %s: %s is %q, was %q", cmd, what, p, g[p], d)
			}
		}
		for p := range g {
			if _, ok := w[p]; !ok && !skip[p] {
				c.Fail("stray-file", "%s %s: leaves %s", cmd, what, p)
			}
		}
	}
	switch c.Int("second", 0, 3) {
	case 0: // the job as it was printed does the same
		fs := disk()
		fs.Put("job.json", raw)
		ra := []string{"-job", "job.json", "-log", "", "-stMemory", fmt.Sprint(mem)}
		if ls != 3 {
			ra = append(ra, "-lsEst", fmt.Sprint(ls))
		}
		_, code2 := c.cliRun("printed", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu2", 1, 4)}, append(ra, "run")...)
		if (code2 != 0) != (code != 0) {
			c.Fail("exit-status", "%s exits with status %d, the job it printed with %d", cmd, code, code2)
		}
		if code == 0 {
			compare(fs, "run from the printed job")
		}
	case 1: // also without the command line, and says the same
		fs, log := disk(), vsim.NewLogSink()
		var err error
		c.Sim("direct", Opt{FS: fs, NumCPU: cpu, LS: ls + 1}, func() {
			var seq ops.OpSequence
			if err = json.Unmarshal(raw, &seq); err == nil {
				_, err = runJob(&seq, nil, ops.NewContext(log, mem, stats.LSEstimatorMode(ls)), true)
			}
		})
		if (err != nil) != (code != 0) {
			c.Fail("exit-status", "%s exits with status %d, the job it printed ends with error %v", cmd, code, err)
		}
		if code != 0 {
			return
		}
		compare(fs, "run directly")
		lack(c, cmd+" run on the command line", strings.Join(noProgress(log.Msgs), ""), string(res.Stdout))
	case 2, 3:
		fs := disk()
		plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: c.Int("max", 1, 3), Prefix: "/work/d/"}
		p := []float64{0.01, 0.05, 0.3}[c.Int("rate", 0, 2)]
		if k := c.Int("kind", 0, len(diskFaults)); k == len(diskFaults) {
			use := int64(0)
			for _, q := range fs.List() {
				b, _ := fs.Get(q)
				use += int64(len(b))
			}
			fs.Capacity = use + int64(c.Rand("cap").N(80000))
		} else {
			plan.Kinds[diskFaults[k]] = p
		}
		cpu2 := c.Pick("cpu2", cpu, cpu, 1, 3)
		res2, code2 := c.cliRun("faulty", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu2}, full...)
		for _, f := range res2.Faults {
			c.Probe(f.Kind)
		}
		if code2 == 0 {
			if code != 0 {
				c.Fail("error-hidden", "%s fails without faults and succeeds with %v", cmd, res2.Faults)
			}
			if s := failText(res2); s != "" {
				c.Fail("exit-status", "%s exits with status 0 after %q", cmd, s)
			}
			compare(fs, fmt.Sprintf("with faults %v exits with status 0", res2.Faults))
			if cpu2 == cpu {
				lack(c, fmt.Sprintf("%s with faults %v", cmd, res2.Faults), doneAfter.ReplaceAllString(string(res.Stdout), ""), string(res2.Stdout))
			}
		} else {
			c.Probe("failed")
			if res2.Outcome != "panic" && failText(res2) == "" {
				c.Fail("silent-failure", "%s exits with status %d without an error message (faults %v)", cmd, code2, res2.Faults)
			}
			if code == 0 && res2.Hard() == 0 && fs.Capacity < 0 {
				c.Fail("spurious-error", "%s fails without a fault: %s", cmd, failText(res2))
			}
		}
		for i := range s.Frames {
			p := fmt.Sprintf("d/light%03d.fits", i)
			a, _ := fs.Get(p)
			if b, _ := disk().Get(p); !bytes.Equal(a, b) {
				c.Fail("input-damaged", "%s changes its input %s", cmd, p)
			}
		}
	}
}

// p29Other covers the commands which run no job, and calls that cannot succeed.
func p29Other(c *Case, cpu int) {
	fs := vsim.NewFS()
	fs.Put("a.fits", fitsF32(8, 8, randData(c.Rand("px"), 64, 0, 1), "1.0"))
	type call struct {
		args  []string
		fails bool
		text  string
	}
	k := []call{
		{[]string{"version"}, false, "Version "},
		{[]string{"legal"}, false, "ABSOLUTELY NO WARRANTY"},
		{[]string{"help"}, false, "Usage:"},
		{nil, false, "Usage:"},
		{[]string{"stats"}, true, ""},
		{[]string{"stack", "none*.fits"}, true, "none*.fits"},
		{[]string{"stack", "../a.fits"}, true, ""},
		{[]string{"-job", "missing.json", "run"}, true, ""},
		{[]string{"-job", "a.fits", "run"}, true, ""},
		{[]string{"-dark", "missing.fits", "stats", "a.fits"}, true, "missing.fits"},
		{[]string{"-noSuchFlag", "1", "stats", "a.fits"}, true, ""},
		{[]string{"-stMode", "x", "stats", "a.fits"}, true, ""},
		{[]string{"-log", "nodir/x.log", "stats", "a.fits"}, true, ""},
		{[]string{"stak", "a.fits"}, true, "Unknown command"},
	}[c.Int("call", 0, 13)]
	res, code := c.cliRun("other", Opt{Explore: true, FS: fs, NumCPU: cpu}, k.args...)
	if (code != 0) != k.fails {
		c.Fail("exit-status", "nightlight %s exits with status %d: %.200s", strings.Join(k.args, " "), code, res.Stdout)
	}
	if !strings.Contains(string(res.Stdout), k.text) {
		c.Fail("text", "nightlight %s prints %.300q, without %q", strings.Join(k.args, " "), res.Stdout, k.text)
	}
}

func sortedLines(s string) []string {
	l := strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' })
	sort.Strings(l)
	return l
}

var doneAfter = regexp.MustCompile("Done after.*|\r.*%.*")

// lack fails if a line of one text is not in the other.
func lack(c *Case, who, want, got string) {
	w, g := sortedLines(want), sortedLines(got)
	k := 0
	for _, x := range w {
		for k < len(g) && g[k] < x {
			k++
		}
		if k >= len(g) || g[k] != x {
			c.Fail("log", "%s does not say %q", who, x)
		}
		k++
	}
}
