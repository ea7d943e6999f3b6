package main

import (
	"fmt"
	"strconv"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// scene is a set of light frames of one star field, with masters.
type scene struct {
	W, H   int
	N      int
	Frames [][]float32 // raw light data
	Expo   []float64
	Dx, Dy []float64
	Blind  []bool // frame without stars
	Stars  []starPos
	Dark   []float32
	Flat   []float32
	// per-frame encodings
	Ext []string
}

type sceneOpt struct {
	N           int
	W, H        int
	NStars      int
	Shift       float64
	BlindMask   int
	Dark, Flat  bool
	GainSpread  float64
	NoiseSpread float64
	Cosmics     int
}

func makeScene(r *R, o sceneOpt) *scene {
	s := &scene{W: o.W, H: o.H, N: o.N}
	s.Stars = skyModel(r, o.W, o.H, o.NStars, 10)
	if o.Dark {
		s.Dark = randData(r, o.W*o.H, 40, 60)
	}
	if o.Flat {
		s.Flat = make([]float32, o.W*o.H)
		for i := range s.Flat {
			x, y := float64(i%o.W)/float64(o.W)-0.5, float64(i/o.W)/float64(o.H)-0.5
			s.Flat[i] = float32(20000 * (1 - 0.5*(x*x+y*y)))
		}
	}
	for i := 0; i < o.N; i++ {
		dx, dy := 0.0, 0.0
		if i > 0 {
			dx, dy = (r.F()*2-1)*o.Shift, (r.F()*2-1)*o.Shift
		}
		st := s.Stars
		blind := o.BlindMask>>uint(i)&1 == 1
		if blind {
			st = nil
		}
		gain := 1 + o.GainSpread*(r.F()*2-1)
		noise := 8 * (1 + o.NoiseSpread*r.F())
		d := renderSky(r, st, o.W, o.H, 500*gain, noise, gain, dx, dy)
		for k := 0; k < o.Cosmics; k++ {
			d[r.N(len(d))] += float32(500 + 3000*r.F())
		}
		for j := range d {
			if s.Flat != nil {
				d[j] *= s.Flat[j] / 20000
			}
			if s.Dark != nil {
				d[j] += s.Dark[j]
			}
		}
		s.Frames = append(s.Frames, d)
		s.Dx, s.Dy = append(s.Dx, dx), append(s.Dy, dy)
		s.Blind = append(s.Blind, blind)
		s.Expo = append(s.Expo, float64(5+r.N(60)))
		s.Ext = append(s.Ext, ".fits")
	}
	return s
}

// write puts the frames on the disk under dir (relative), in the given encodings.
func (s *scene) write(fs *vsim.FS, prefix string) {
	for i, d := range s.Frames {
		b := fitsF32(s.W, s.H, d, strconv.FormatFloat(s.Expo[i], 'f', 1, 64))
		if s.Ext[i] == ".fits.gz" {
			b = gz(b)
		}
		fs.Put(fmt.Sprintf("%s%03d%s", prefix, i, s.Ext[i]), b)
	}
	if s.Dark != nil {
		fs.Put("dark.fits", fitsF32(s.W, s.H, s.Dark, "10.0"))
	}
	if s.Flat != nil {
		fs.Put("flat.fits", fitsF32(s.W, s.H, s.Flat, "10.0"))
	}
}

// stackCfg mirrors the flags of the stack command.
type stackCfg struct {
	Dark, Flat, Pre, Post, Batch, Out, Tiff, Jpg, Stars, Back, Stats string
	BpLow, BpHigh                                                    float32
	DebandH, DebandV                                                 float32
	Bin                                                              int32
	BackGrid                                                         int32
	HistoRef, AlignRef                                               string
	MinStars                                                         int
	NormHist                                                         post.HistoNormMode
	AlignK                                                           int32
	AlignT                                                           float32
	Mode                                                             stack.StackMode
	Weight                                                           stack.StackWeighting
	SigLow, SigHigh                                                  float32
	StarRadius                                                       int32
	StarSig, StarBpSig, StarInOut                                    float32
	Patterns                                                         []string
}

func defStackCfg() stackCfg {
	return stackCfg{BpLow: 3, BpHigh: 5, HistoRef: "%starsHFR", AlignRef: "%starsHFR", NormHist: post.HNMLocScale, AlignK: 8, AlignT: 1,
		Mode: stack.StAuto, SigLow: 2.75, SigHigh: 2.75, StarRadius: 8, StarSig: 10, StarBpSig: 5, StarInOut: 1.4, Out: "out.fits", Stats: "out.html", Patterns: []string{"light*.fits*"}}
}

func (g *stackCfg) starDetect() *pre.OpStarDetect {
	return pre.NewOpStarDetect(g.StarRadius, g.StarSig, g.StarBpSig, g.StarInOut, g.Stars)
}

func (g *stackCfg) preproc(sd *pre.OpStarDetect) *ops.OpSequence {
	deb := pre.NewOpDebayer("", "RGGB")
	return ops.NewOpSequence(
		pre.NewOpCalibrate(g.Dark, g.Flat),
		pre.NewOpBadPixel(g.BpLow, g.BpHigh, deb),
		deb,
		pre.NewOpDebandHoriz(g.DebandH, 16, 3),
		pre.NewOpDebandVert(g.DebandV, 16, 3),
		pre.NewOpScaleOffset(1, 0),
		pre.NewOpBin(g.Bin),
		sd,
		pre.NewOpBackExtract(g.BackGrid, 4, 1.5, 0, g.Back),
		ref.NewOpExportStats(g.Stats),
		ops.NewOpSave(g.Pre, ops.EMMinMax, 1),
	)
}

// stackOps is the operator tree of the stack command.
func (g *stackCfg) stackOps() *ops.OpSequence {
	sd := g.starDetect()
	return ops.NewOpSequence(
		ops.NewOpLoadMany(g.Patterns),
		stack.NewOpStackBatches(ops.NewOpSequence(
			g.preproc(sd),
			ref.NewOpSelectReference(ref.SRHisto, g.HistoRef, sd),
			ref.NewOpSelectReference(ref.SRAlign, g.AlignRef, sd),
			ref.NewOpFilter(g.MinStars),
			post.NewOpMatchHistogram(g.NormHist),
			post.NewOpAlign(g.AlignK, g.AlignT, post.OOBModeNaN),
			ops.NewOpSave(g.Post, ops.EMMinMax, 1),
			stack.NewOpStack(g.Mode, g.Weight, g.SigLow, g.SigHigh),
			sd,
			ops.NewOpSave(g.Batch, ops.EMMinMax, 1),
		)),
		sd,
		ops.NewOpSave(g.Out, ops.EMMinMax, 1),
		ops.NewOpSave(g.Tiff, ops.EM0_65535, 1),
		ops.NewOpSave(g.Jpg, ops.EM0_65535, 1),
	)
}

// statsOps is the operator tree of the stats command.
func (g *stackCfg) statsOps() *ops.OpSequence {
	return ops.NewOpSequence(ops.NewOpLoadMany(g.Patterns), g.preproc(g.starDetect()))
}

// stretchOps is the operator tree of the stretch command.
func stretchOps(in, out, tiff, jpg string) *ops.OpSequence {
	sd := pre.NewOpStarDetect(8, 10, -1, 1.4, "")
	return ops.NewOpSequence(
		ops.NewOpLoadMany([]string{in}),
		stretch.NewOpNormalizeRange(),
		stretch.NewOpStretchIterative(0.1, 0.004),
		stretch.NewOpMidtones(0, 2),
		stretch.NewOpGamma(1.2),
		stretch.NewOpGammaPP(1.1, 1),
		stretch.NewOpScaleBlack(0.02),
		sd,
		ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", sd),
		post.NewOpAlign(8, 1, post.OOBModeOwnLocation),
		stretch.NewOpGaussianBlur(1),
		stretch.NewOpUnsharpMask(1, 0.5, 1),
		ops.NewOpSave(out, ops.EMMinMax, 1),
		ops.NewOpSave(tiff, ops.EM0_1, 1),
		ops.NewOpSave(jpg, ops.EM0_1, 1),
	)
}

// rgbOps is the operator tree of the rgb command.
func rgbOps(in []string, out, tiff, jpg string) *ops.OpSequence {
	sd := pre.NewOpStarDetect(8, 10, 0, 1.4, "")
	return ops.NewOpSequence(
		ops.NewOpLoadMany(in),
		sd,
		ref.NewOpSelectReference(ref.SRAlign, "%rgb", sd),
		rgb.NewOpRGBCombine(),
		rgb.NewOpRGBBalance(8, 0.1, 0, 0.5, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}),
		rgb.NewOpRGBToHSLuv(),
		hsl.NewOpHSLApplyLum(),
		hsl.NewOpHSLUnsharpMask(1, 0.3, 1),
		hsl.NewOpHSLNeutralizeBackground(0.5, 1),
		hsl.NewOpHSLSaturationGamma(1.2, 1),
		hsl.NewOpHSLSelectiveSaturation(295, 40, 0.5),
		hsl.NewOpHSLRotateHue(100, 190, -30, 1),
		hsl.NewOpHSLSCNR(0.3),
		hsl.NewOpHSLStretchIterative(0.1, 0.004),
		hsl.NewOpHSLMidtones(0, 2),
		hsl.NewOpHSLGamma(1.2),
		hsl.NewOpHSLGammaPP(1.1, 1),
		hsl.NewOpHSLScaleOffsetChannel(2, 1, 0),
		hsl.NewOpHSLScaleBlack(0.05),
		rgb.NewOpHSLuvToRGB(),
		ops.NewOpSave(out, ops.EMMinMax, 1),
		ops.NewOpSave(tiff, ops.EM0_1, 1),
		ops.NewOpSave(jpg, ops.EM0_1, 1),
	)
}

// fileDigest describes an output file in a form independent of header record order.
func fileDigest(name string, b []byte) string {
	raw := b
	if len(name) > 3 && name[len(name)-3:] == ".gz" {
		u, err := gunzip(b)
		if err != nil {
			return "bad gzip: " + err.Error()
		}
		raw = u
	}
	f, err := decodeFits(raw)
	if err != nil {
		return fmt.Sprintf("raw %d bytes %x", len(b), hashBytes(b))
	}
	h := uint64(1469598103934665603)
	for _, v := range f.Data {
		h = mix64(h ^ uint64(f32bits(v)))
	}
	ks := map[string]int{}
	for k := range f.Keys {
		ks[k] = 1
	}
	s := ""
	for _, k := range sortedKeys(ks) {
		s += fmt.Sprintf("%s=%v;", k, f.Keys[k])
	}
	return fmt.Sprintf("fits %v data %x keys %s extra %d", f.Naxis, h, s, f.Extra)
}
