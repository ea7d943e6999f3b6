package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
	"golang.org/x/image/tiff"
)

// P20: damaged or foreign input files are refused with an error.
func init() {
	register(&Prop{ID: "P20", Quick: 12000, Rule: "Each case draws a valid input file and up to three damages (header values, cards, bytes, truncation, a foreign format), loads it on its own or among intact frames of a stacking job, with short reads and a schedule.", Run: runP20})
}

// setCard replaces the value of a header card.
func setCard(b []byte, key, val string) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+80 <= len(o) && i < 2880*3; i += 80 {
		if strings.TrimRight(string(o[i:i+8]), " ") == key {
			copy(o[i:i+80], card(fmt.Sprintf("%-8s= %20s / changed", key, val)))
			return o
		}
	}
	return o
}

func dropCard(b []byte, key string) []byte {
	o := append([]byte(nil), b...)
	for i := 0; i+80 <= len(o) && i < 2880*3; i += 80 {
		if strings.TrimRight(string(o[i:i+8]), " ") == key {
			copy(o[i:i+80], card("COMMENT dropped"))
		}
	}
	return o
}

// damage returns a damaged file, and whether any reader must refuse it.
func damage(c *Case, nm string, w, h int) (name string, b []byte, must bool) {
	r := c.Rand(nm)
	bp := c.Pick(nm+".bitpix", 8, 16, 32, 64, -32, -64)
	s := &fitsSpec{Bitpix: bp, Naxis: []int{w, h}, Exposure: "10.0", HasB: c.Bool(nm+".b", 1, 2), Bscale: 1}
	for i := 0; i < w*h; i++ {
		s.Raw = append(s.Raw, float64(r.N(200)))
	}
	if bp < 0 && c.Bool(nm+".nan", 1, 4) { // missing pixels, which are valid in floating point files
		d := c.Pick(nm+".nanp", 1, 30, 100)
		for i := range s.Raw {
			if r.N(100) < d {
				s.Raw[i] = []float64{math.NaN(), math.NaN(), math.Inf(1), math.Inf(-1)}[r.N(4)]
			}
		}
	}
	b = s.bytes()
	name = nm + ".fits"
	for k := c.Int(nm+".damages", 0, 3); k > 0; k-- {
		p := fmt.Sprintf("%s.%d", nm, k)
		switch c.Int(p, 0, 16) {
		case 0:
			b = setCard(b, "NAXIS1", c.PickS(p+"v", "-1", "0", "-2147483648", "4294967296", "99999999999999999999"))
			must = true
		case 1:
			b = setCard(b, "NAXIS2", c.PickS(p+"v", "-1", "0", "4294967298", "-2147483648"))
			must = true
		case 2:
			v := c.PickS(p+"v", "0", "-1", "1000000", "-2147483648", "2147483647", "1")
			b = setCard(b, "NAXIS", v)
			must = must || v != "1"
		case 3:
			v := c.PickS(p+"v", "0", "7", "-8", "-16", "128", "1")
			b = setCard(b, "BITPIX", v)
			must = true
		case 4:
			b = dropCard(b, c.PickS(p+"v", "SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2"))
			must = true
		case 5:
			b = dropCard(b, "END")
			must = true // the data are taken for header and the file ends
		case 6:
			b = setCard(b, "SIMPLE", "F")
			must = true
		case 7, 8: // byte damage in the header, but never in the digits of the dimensions
			for j := r.N(20); j >= 0; j-- {
				k := 80*(5+r.N(31)) + r.N(80)
				if k < len(b) {
					b[k] = byte(r.U())
				}
			}
		case 9: // truncation
			if len(b) > 0 {
				b = b[:r.N(len(b))]
			}
		case 10: // random garbage
			b = make([]byte, r.N(9000))
			for j := range b {
				b[j] = byte(r.U())
			}
			must = true
		case 11:
			b = nil
			must = true
		case 12:
			b = gz(b)
			if c.Bool(p+"gzbad", 1, 2) && len(b) > 0 {
				b = b[:r.N(len(b))]
				name = nm + ".fits.gz"
			}
			must = true
		case 13: // declared larger than the data
			b = setCard(b, "NAXIS2", fmt.Sprint(h*3+8000))
			must = true
		case 16: // dimensions whose product overflows
			v := c.PickS(p+"v", "65536 65536", "65536 98304", "92682 46341", "131072 32768", "2147483647 2147483647", "1073741825 4")
			q := strings.Fields(v)
			b = setCard(setCard(b, "NAXIS1", q[0]), "NAXIS2", q[1])
			must = true
		case 14: // a fourth axis of length 1, or odd scaling
			b = setCard(b, "BSCALE", c.PickS(p+"v", "0", "1E400", "-1", "NaN", "1e39"))
		case 15: // tiff of an unusual kind
			img := []image.Image{image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.Black, color.White, color.RGBA{1, 2, 3, 255}}), image.NewNRGBA(image.Rect(0, 0, w, h)), image.NewNRGBA64(image.Rect(0, 0, w, h)), image.NewCMYK(image.Rect(0, 0, w, h))}[c.Int(p+"v", 0, 3)]
			var o bytes.Buffer
			tiff.Encode(&o, img, nil)
			b = o.Bytes()
			if c.Bool(p+"plain", 1, 2) {
				d := make([]float32, w*h)
				for j := range d {
					d[j] = float32(r.F())
				}
				b = tiffGray16(w, h, d)
			}
			if c.Bool(p+"bytes", 1, 2) { // mostly in the directory at the end
				for j := r.N(4); j >= 0; j-- {
					k := r.N(len(b))
					if r.N(2) == 0 {
						k = len(b) - 1 - r.N(200)%len(b)
					}
					b[k] = byte(r.U() % uint64(1+r.N(256)))
				}
			}
			if c.Bool(p+"cut", 1, 2) && len(b) > 0 {
				b = b[:r.N(len(b))]
			}
			name = nm + ".tiff"
			must = false
			return
		}
		if k > 1 && must {
			break // later damage could undo the certain one
		}
	}
	return
}

func runP20(c *Case) {
	if c.Bool("job", 1, 8) {
		p20job(c)
		return
	}
	name, b, must := damage(c, "d", c.Int("w", 1, 60), c.Int("h", 1, 60))
	fs := vsim.NewFS()
	fs.Put(name, b)
	var im *fits.Image
	var err error
	c.Sim("load", Opt{FS: fs, LS: c.Int("ls", 1, 5), Plan: &vsim.FaultPlan{Kinds: map[string]float64{"read-short": 0.1}}}, func() {
		im, err = fits.NewImageFromFile(name, 3, vsim.NewLogSink())
	})
	if err != nil {
		c.Probe("refused")
		c.Nontrivial()
		return
	}
	if must {
		c.Fail("accepted", "damaged file %s was loaded as %v image without error", name, im.Naxisn)
	}
	n := 1
	for _, v := range im.Naxisn {
		if v < 1 {
			c.Fail("inconsistent", "loaded image has dimensions %v", im.Naxisn)
		}
		n *= int(v)
	}
	if len(im.Naxisn) < 2 || n != len(im.Data) || n != int(im.Pixels) {
		c.Fail("inconsistent", "loaded image has dimensions %v, %d pixels and %d values", im.Naxisn, im.Pixels, len(im.Data))
	}
	c.Nontrivial()
}

// p20job: a damaged frame, dark or flat among intact frames must end the job with an error or be
// handled, but never crash it.
func p20job(c *Case) {
	w, h := 48, 44
	s := makeScene(c.Rand("scene"), sceneOpt{N: c.Int("n", 1, 3), W: w, H: h, NStars: 6, Shift: 1, Dark: true, Flat: true})
	fs := vsim.NewFS()
	s.write(fs, "light")
	name, b, must := damage(c, "light9", w, h)
	g := defStackCfg()
	g.Patterns = []string{"light*"}
	switch c.Int("where", 0, 2) {
	case 1:
		name = "dark" + name
		g.Dark, g.Flat = name, "flat.fits"
	case 2:
		name = "flat" + name
		g.Dark, g.Flat = "dark.fits", name
	}
	fs.Put(name, b)
	var err error
	c.Sim("job", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 4), LS: c.Int("ls", 1, 5)}, func() {
		op := g.stackOps()
		if c.Bool("stats", 1, 2) {
			op = g.statsOps()
		}
		_, err = runJob(op, nil, newCtx(vsim.NewLogSink(), 2000), true)
	})
	if err == nil && must {
		c.Fail("accepted", "a job with the damaged file %s ended without error", name)
	}
	c.Nontrivial()
}
