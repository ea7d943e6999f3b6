From 9badc9dd33e3affe98f39d7b9e40cd4a96b747f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 01/92] fix: read image data in full buffers, so short reads
 neither crash nor lose the last bytes

---
 internal/fits/read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 043aea4..a3c0408 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -184,7 +184,7 @@ func (fits *Image) readInt8Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[:bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[:bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -224,7 +224,7 @@ func (fits *Image) readInt16Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -270,7 +270,7 @@ func (fits *Image) readInt32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -316,7 +316,7 @@ func (fits *Image) readInt64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -363,7 +363,7 @@ func (fits *Image) readFloat32Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
@@ -410,7 +410,7 @@ func (fits *Image) readFloat64Data(r io.Reader) error {
 		if bytesToRead > bufLen {
 			bytesToRead = bufLen
 		}
-		bytesRead, err := r.Read(buf[leftoverBytes : leftoverBytes+bytesToRead])
+		bytesRead, err := io.ReadFull(r, buf[leftoverBytes:leftoverBytes+bytesToRead])
 		if err != nil {
 			return fmt.Errorf("%d: %s", fits.ID, err.Error())
 		}
-- 
2.43.0


From e7a30a0245c8d78594b4aa1096033f0aecfd65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 02/92] fix: keep header integers beyond 32 bits as floats
 instead of wrapping them around

---
 internal/fits/read.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index a3c0408..ba2d637 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -490,7 +490,11 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 			case byte('i'): // int
 				val, err := strconv.ParseInt(string(subValues[i]), 10, 64)
 				if err == nil {
-					h.Ints[key] = int32(val)
+					if val >= math.MinInt32 && val <= math.MaxInt32 {
+						h.Ints[key] = int32(val)
+					} else { // e.g. BZERO=2147483648 for unsigned 32-bit data
+						h.Floats[key] = float32(val)
+					}
 				}
 			case byte('f'): // float
 				val, err := strconv.ParseFloat(string(subValues[i]), 64)
-- 
2.43.0


From 7c4eb6021c92296f233e4f730ac665824e56482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 03/92] fix: read header numbers in all FITS exponent notations

---
 internal/fits/read.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index ba2d637..ba03e6a 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -497,7 +497,8 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					}
 				}
 			case byte('f'): // float
-				val, err := strconv.ParseFloat(string(subValues[i]), 64)
+				// FITS allows D as exponent marker for double precision
+				val, err := strconv.ParseFloat(strings.Replace(string(subValues[i]), "D", "E", 1), 64)
 				if err == nil {
 					h.Floats[key] = float32(val)
 				}
@@ -546,7 +547,7 @@ func compileRE() *regexp.Regexp {
 
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
-	floa := "(?P<f>[+-]?[0-9]*\\.[0-9]*(?:[ED][-+]?[0-9]+)?)"
+	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EeD][-+]?[0-9]+)?)"
 	stri := "'(?P<s>[^']*)'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
-- 
2.43.0


From bc6f106604df58bc1fec8eee037bcbd9cdfa7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 04/92] fix: offset of the third color channel when reading RGB
 TIFF

---
 internal/fits/tiff16.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 1c29b2c..d5ad45f 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -169,7 +169,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// allocate FITS image bitmap
 	f.Data = make([]float32, f.Pixels)
 	sizeThird := int(f.Pixels / 3)
-	sizeTwoThirds := int(f.Pixels * 2)
+	sizeTwoThirds := sizeThird * 2
 
 	// keep running stats
 	min, max, sum := float32(math.MaxFloat32), float32(-math.MaxFloat32), float64(0)
-- 
2.43.0


From 4a0a7cfb2f275284e822f313b95a2b5f8a1740f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 05/92] fix: read 8-bit and alpha TIFF files, and report
 unsupported color models, instead of crashing

---
 internal/fits/tiff16.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index d5ad45f..68162fb 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -17,6 +17,7 @@ package fits
 
 import (
 	"bufio"
+	"fmt"
 	"image"
 	"image/color"
 	"io"
@@ -153,6 +154,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
+	if channels == 0 {
+		return fmt.Errorf("%d: unsupported TIFF color model in %s", f.ID, fileName)
+	}
 
 	// set FITS metadata
 	f.Bitpix = bitpix
@@ -180,8 +184,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.Gray16)
-				gray := float32(c.Y)
+				gray := tiffGray(t.At(x, y))
 				f.Data[y*width+x] = gray
 
 				// update stats
@@ -199,8 +202,7 @@ func (f *Image) ReadTIFF(fileName string) error {
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
 				// convert pixel
-				c := t.At(x, y).(color.RGBA64)
-				r, g, b := float32(c.R), float32(c.G), float32(c.B)
+				r, g, b := tiffRGB(t.At(x, y))
 				f.Data[y*width+x] = r
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
@@ -227,6 +229,35 @@ func (f *Image) ReadTIFF(fileName string) error {
 	return nil
 }
 
+// Returns the gray value of a grayscale TIFF pixel, at its native bit depth
+func tiffGray(c color.Color) float32 {
+	switch v := c.(type) {
+	case color.Gray:
+		return float32(v.Y)
+	case color.Gray16:
+		return float32(v.Y)
+	case color.Alpha:
+		return float32(v.A)
+	case color.Alpha16:
+		return float32(v.A)
+	}
+	return float32(color.Gray16Model.Convert(c).(color.Gray16).Y)
+}
+
+// Returns the color values of an RGB TIFF pixel, at their native bit depth
+func tiffRGB(c color.Color) (r, g, b float32) {
+	switch v := c.(type) {
+	case color.RGBA:
+		return float32(v.R), float32(v.G), float32(v.B)
+	case color.NRGBA:
+		return float32(v.R), float32(v.G), float32(v.B)
+	case color.NRGBA64:
+		return float32(v.R), float32(v.G), float32(v.B)
+	}
+	v := color.RGBA64Model.Convert(c).(color.RGBA64)
+	return float32(v.R), float32(v.G), float32(v.B)
+}
+
 // Convert a golang image color model to FITS bitpix and number of channels.
 func colorModelToBitpixAndChannels(m color.Model) (bitpix, channels int32) {
 	switch m {
-- 
2.43.0


From b9130815a3636af9e6878b0bb71c56f67282b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 06/92] fix: verify the checksum of compressed input files

---
 internal/fits/read.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index ba03e6a..65463a0 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -69,7 +69,16 @@ func (fits *Image) ReadFile(fileName string, readData bool, logWriter io.Writer)
 		}
 	}
 
-	return fits.Read(r, readData, logWriter)
+	if err = fits.Read(r, readData, logWriter); err != nil {
+		return err
+	}
+	if readData && r != io.Reader(f) {
+		// read compressed files to the end, else the checksum is never verified
+		if _, err = io.Copy(io.Discard, r); err != nil {
+			return fmt.Errorf("%d: %s", fits.ID, err.Error())
+		}
+	}
+	return nil
 }
 
 func (fits *Image) PopHeaderInt32(key string) (res int32, err error) {
-- 
2.43.0


From 7e8e28a23c04cae44efe32ef9f3e08d602305b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 07/92] fix: refuse FITS headers with missing, non-positive or
 overflowing dimensions

---
 internal/fits/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/fits/read.go b/internal/fits/read.go
index 65463a0..86cdc2e 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -119,6 +119,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 	if naxis, err = fits.PopHeaderInt32("NAXIS"); err != nil {
 		return err
 	}
+	if naxis < 2 || naxis > 999 {
+		return fmt.Errorf("%d: Not a FITS image; unsupported number of dimensions NAXIS=%d", fits.ID, naxis)
+	}
 	fits.Naxisn = make([]int32, naxis)
 	fits.Pixels = int32(1)
 	for i := int32(1); i <= naxis; i++ {
@@ -127,6 +130,9 @@ func (fits *Image) Read(f io.Reader, readData bool, logWriter io.Writer) (err er
 		if nai, err = fits.PopHeaderInt32(name); err != nil {
 			return err
 		}
+		if nai < 1 || int64(fits.Pixels)*int64(nai) > math.MaxInt32 {
+			return fmt.Errorf("%d: Not a FITS image; unsupported dimension %s=%d", fits.ID, name, nai)
+		}
 		fits.Naxisn[i-1] = nai
 		fits.Pixels *= int32(nai)
 	}
-- 
2.43.0


From 7a491726b7a5c41d3d21c51e1ebbe6276d304484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 08/92] fix: truncate existing FITS files when overwriting them

---
 internal/fits/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 9d73889..c613eb2 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -31,7 +31,7 @@ import (
 // Compresses with gzip if .gz or gzip suffix is present.
 func (fits *Image) WriteFile(fileName string) error {
 	//fmt.Println("Reading from " + fileName + "..." )
-	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE, 0644)
+	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
 	defer f.Close()
 
-- 
2.43.0


From 50de8c0ba190d922e4b207bed3668d69edce3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 09/92] fix: report errors from flushing and closing image
 files

---
 internal/fits/tiff16.go   | 28 ++++++++++++++++++++++------
 internal/fits/write.go    |  6 +++---
 internal/fits/writejpg.go | 28 ++++++++++++++++++++++------
 3 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 68162fb..642ab87 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -29,15 +29,23 @@ import (
 )
 
 // Write a FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if e := writer.Flush(); err == nil {
+			err = e
+		}
+	}()
 
 	return f.WriteTIFF16(writer, min, max, gamma)
 }
@@ -92,15 +100,23 @@ func (f *Image) WriteTIFF16(writer io.Writer, min, max, gamma float32) error {
 }
 
 // Write a grayscale FITS image to 16-bit TIFF, using the given min, max and gamma.
-func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) error {
+func (f *Image) WriteMonoTIFF16ToFile(fileName string, min, max, gamma float32) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if e := writer.Flush(); err == nil {
+			err = e
+		}
+	}()
 
 	return f.WriteMonoTIFF16(writer, min, max, gamma)
 }
diff --git a/internal/fits/write.go b/internal/fits/write.go
index c613eb2..657dccb 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -29,11 +29,11 @@ import (
 // Writes an in-memory FITS image to a file with given filename.
 // Creates/overwrites the file if necessary.
 // Compresses with gzip if .gz or gzip suffix is present.
-func (fits *Image) WriteFile(fileName string) error {
+func (fits *Image) WriteFile(fileName string) (err error) {
 	//fmt.Println("Reading from " + fileName + "..." )
 	f, err:=os.OpenFile(fileName, os.O_WRONLY |os.O_CREATE |os.O_TRUNC, 0644)
 	if err!=nil { return err }
-	defer f.Close()
+	defer func() { if e:=f.Close(); err==nil { err=e } }()
 
 	var w io.Writer=f
 
@@ -42,7 +42,7 @@ func (fits *Image) WriteFile(fileName string) error {
 	lExt:=strings.ToLower(ext)
 	if lExt==".gz" || lExt==".gzip" {
 		gw:=gzip.NewWriter(f)
-		defer gw.Close()
+		defer func() { if e:=gw.Close(); err==nil { err=e } }()
 		w=gw
 	} 
 
diff --git a/internal/fits/writejpg.go b/internal/fits/writejpg.go
index 8581bb9..5138dd6 100644
--- a/internal/fits/writejpg.go
+++ b/internal/fits/writejpg.go
@@ -26,15 +26,23 @@ import (
 )
 
 // Write a FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if e := writer.Flush(); err == nil {
+			err = e
+		}
+	}()
 
 	return f.WriteJPG(writer, min, max, gamma, quality)
 }
@@ -89,15 +97,23 @@ func (f *Image) WriteJPG(writer io.Writer, min, max, gamma float32, quality int)
 }
 
 // Write a grayscale FITS image to JPG, using the given min, max and gamma.
-func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) error {
+func (f *Image) WriteMonoJPGToFile(fileName string, min, max, gamma float32, quality int) (err error) {
 	file, err := os.Create(fileName)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if e := file.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	writer := bufio.NewWriter(file)
-	defer writer.Flush()
+	defer func() {
+		if e := writer.Flush(); err == nil {
+			err = e
+		}
+	}()
 
 	return f.WriteMonoJPG(writer, min, max, gamma, quality)
 }
-- 
2.43.0


From 646293670aa2b1fa47a3e3e0c0153030a7c28aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 10/92] fix: report errors when saving TIFF and JPEG files

---
 internal/ops/operator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index ff41e01..1a7ffcc 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -432,11 +432,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteMonoTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color 16-bit TIFF to %s with min=%g max=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max)
-			f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
+			err = f.WriteTIFF16ToFile(fileName, min, max, op.Gamma)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as 16-bit TIFF to %s", f.ID, f.DimensionsToString(), fileName)
 		}
@@ -444,11 +444,11 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 		if len(f.Naxisn) == 2 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel mono JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteMonoJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else if len(f.Naxisn) == 3 && f.Naxisn[2] == 3 {
 			fmt.Fprintf(c.Log, "%d: Writing %s pixel color JPEG to %s with min=%g max=%g gamma=%g...\n",
 				f.ID, f.DimensionsToString(), fileName, min, max, op.Gamma)
-			f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
+			err = f.WriteJPGToFile(fileName, min, max, op.Gamma, 95)
 		} else {
 			return nil, fmt.Errorf("%d: unable to write %s pixel image as JPEG to %s", f.ID, f.DimensionsToString(), fileName)
 		}
-- 
2.43.0


From 558faa0a9e0d5e663803be99a097a7a66005c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 11/92] fix: keep image statistics from reading past the end of
 the data

---
 internal/stats/stats_amd64.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/stats/stats_amd64.go b/internal/stats/stats_amd64.go
index 4022bc7..010840c 100644
--- a/internal/stats/stats_amd64.go
+++ b/internal/stats/stats_amd64.go
@@ -23,8 +23,17 @@ import (
 
 // Calculate minimum, mean and maximum of given data
 func calcMinMeanMax(data []float32) (min, mean, max float32) {
-    if cpuid.CPU.AVX2() {
-        return calcMinMeanMaxAVX2(data)
+    // the AVX2 implementation processes blocks of four values, and must not run past the end of the data
+    if blocks:=len(data) &^ 3; cpuid.CPU.AVX2() && blocks>0 {
+        min, mean, max = calcMinMeanMaxAVX2(data[:blocks])
+        if blocks<len(data) {
+            tMin, tMean, tMax := calcMinMeanMaxPureGo(data[blocks:])
+            if tMin<min { min=tMin }
+            if tMax>max { max=tMax }
+            n, tN := float64(blocks), float64(len(data)-blocks)
+            mean=float32((float64(mean)*n + float64(tMean)*tN)/(n+tN))
+        }
+        return min, mean, max
     }
     return calcMinMeanMaxPureGo(data)
 }
@@ -35,8 +44,13 @@ func calcMinMeanMaxAVX2(data []float32) (min, mean, max float32)
 
 // Calculate variance of given data from provided mean. 
 func calcVariance(data []float32, mean float32) (result float64) {
-    if cpuid.CPU.AVX2() {
-		return calcVarianceAVX2(data, mean)
+    if blocks:=len(data) &^ 3; cpuid.CPU.AVX2() && blocks>0 {
+        result=calcVarianceAVX2(data[:blocks], mean)
+        if blocks<len(data) {
+            n, tN := float64(blocks), float64(len(data)-blocks)
+            result=(result*n + calcVariancePureGo(data[blocks:], mean)*tN)/(n+tN)
+        }
+        return result
     }
 	return calcVariancePureGo(data, mean)
 }
-- 
2.43.0


From 425db1f0403ec500411f05a36d71fea28712a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 12/92] fix: expand the image id in save patterns like
 pre%04d.fits, so frames do not overwrite each other

---
 internal/ops/operator.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 1a7ffcc..050826b 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -391,6 +392,9 @@ func (op *OpSave) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Matches %d and its variants with a width like %04d, for expansion to the image id
+var rePatternID = regexp.MustCompile("%[0-9]*d")
+
 func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err error) {
 	if op.FilePattern == "" {
 		return f, nil
@@ -398,10 +402,9 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 	if f == nil {
 		return nil, fmt.Errorf("cannot save nil file to %s", op.FilePattern)
 	}
-	fileName := op.FilePattern
-	if strings.Contains(fileName, "%d") {
-		fileName = fmt.Sprintf(op.FilePattern, f.ID)
-	}
+	fileName := rePatternID.ReplaceAllStringFunc(op.FilePattern, func(verb string) string {
+		return fmt.Sprintf(verb, f.ID)
+	})
 	fnLower := strings.ToLower(fileName)
 
 	if err != nil {
-- 
2.43.0


From f933f0fe30574bb5b6b7aac7c4042837445054db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 13/92] fix: pass over rejected frames in unary operators,
 instead of failing the job or crashing

---
 internal/ops/operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 050826b..a446dc7 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -200,6 +200,9 @@ func (op *OpUnaryBase) MakePromise(in Promise, c *Context) (out Promise) {
 		if f, err = in(); err != nil {
 			return nil, err
 		} // materialize input promise
+		if f == nil {
+			return nil, nil
+		} // skip images rejected by a prior step
 		if f, err = op.Apply(f, c); err != nil {
 			return nil, err
 		} // apply unary operator
-- 
2.43.0


From 592f0c69dad0f64081a51e1f3a23181d32262338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 14/92] fix: report an error when stacking no frames, frames of
 different sizes or weighted MADSigma, instead of crashing

---
 internal/ops/stack/stack.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 699486b..1c44de9 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -124,6 +124,17 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	fmt.Fprintf(c.Log, "Stacking %d frames with stacking mode %d and sigma low %g high %g:\n", 
 				len(f), mode, op.SigmaLow, op.SigmaHigh)
 
+	// validate the frames
+	if len(f)==0 { return nil, errors.New("no frames to stack") }
+	for _,l:=range f {
+		if l.Naxisn[0]!=f[0].Naxisn[0] || len(l.Data)!=len(f[0].Data) {
+			return nil, errors.New(fmt.Sprintf("%d: dimensions %v differ from dimensions %v of the first frame to stack", l.ID, l.Naxisn, f[0].Naxisn))
+		}
+	}
+	if mode==StMADSigma && op.Weighting!=StWeightNone {
+		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
+	}
+
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
-- 
2.43.0


From 2d6b2a03eff0ae6fbcdafd2ab965168b96377110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 15/92] fix: skip frames instead of crashing when the reference
 frame has too few stars for a triangle

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 8b12768..bf23702 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -132,6 +132,7 @@ func generateTriangles(stars []Star, indices []int, scaleFactor float32) []Trian
 // Finds the closest matches between the given triangles and the reference triangles
 func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match) {
 	kdt:=a.RefTri3DT
+	if len(kdt)==0 { return nil } // too few reference stars to form a triangle
 	matches=make([]Match, len(triangles))
 
 	for i, tri := range triangles {
-- 
2.43.0


From b4979512dccc4ac8f9b541b8938265db1b0fc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 16/92] fix: keep values and weights paired in weighted sigma
 clipping modes

---
 internal/ops/stack/stack.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 1c44de9..8c83683 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -453,6 +453,7 @@ func StackSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh float32
 func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc, sigmaLow, sigmaHigh float32, res []float32) (clipLow, clipHigh int32) {
 	gatheredFull:=make([]float32,len(lightsData))
 	weightsFull :=make([]float32,len(weights))
+	medianFull  :=make([]float32,len(lightsData))
 	numClippedLow, numClippedHigh:=int32(0), int32(0)
 
 	// for all pixels
@@ -495,7 +496,9 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 		for {
 
 			// calculate median, mean, standard deviation and variance across gathered data
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// on a copy, as quick select reorders values, which would separate them from their weights
+			copy(medianFull, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(medianFull[:len(gatheredCur)])
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// remove out-of-bounds values
@@ -764,11 +767,13 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 		for {
 
 			// calculate median and standard deviation across all frames
-			median:=qsort.QSelectMedianFloat32(gatheredCur)
+			// on a copy, as quick select reorders values, which would separate them from their weights
+			winsorized:=winsorizedFull[0:len(gatheredCur)]
+			copy(winsorized, gatheredCur)
+			median:=qsort.QSelectMedianFloat32(winsorized)
 			_, stdDev:=stats.MeanStdDev(gatheredCur)
 
 			// calculate winsorized standard deviation (removes outliers/tighter)
-			winsorized:=winsorizedFull[0:len(gatheredCur)]
 			copy(winsorized, gatheredCur)
 			for {
 				// replace outliers with low/high bound
-- 
2.43.0


From b6f11d89a75da8dd93888ab36efe27c2054b8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 17/92] fix: use equal weights when all frames have the same
 noise or HFR, instead of NaN

---
 internal/ops/stack/stack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 8c83683..72e7fad 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -260,7 +260,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise))
+			weights[i]=1
+			if maxNoise>minNoise { weights[i]=1/(1+4*(f[i].Stats.Noise()-minNoise)/(maxNoise-minNoise)) }
 		}
 	} else if weighting==StWeightInverseHFR { // HFR weighted stacking, smaller HFR gets bigger weight
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
@@ -272,7 +273,8 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		weights =make([]float32, len(f))
 		for i:=0; i<len(f); i+=1 {
 			//f[i].Stats.Noise=nl.EstimateNoise(f[i].Data, f[i].Naxisn[0])
-			weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR))
+			weights[i]=1
+			if maxHFR>minHFR { weights[i]=1/(1+4*(f[i].HFR-minHFR)/(maxHFR-minHFR)) }
 		}
 	} else {
 		return nil, errors.New(fmt.Sprintf("Invalid weighting mode %d\n", weighting))
-- 
2.43.0


From 6cab80bc019a318f80792e30fad3f4d445efecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 18/92] fix: do not output NaN for pixels where clipping
 rejects all values

---
 internal/ops/stack/stack.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 72e7fad..8467caa 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -528,6 +528,11 @@ func StackSigmaWeighted(lightsData [][]float32, weights []float32, RefFrameLoc,
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+            	if len(gatheredCur)==0 { // all values out of bounds
+            		res[i]=median
+            		break
+            	}
+
             	// calculate weighted mean
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
@@ -610,6 +615,10 @@ func StackMADSigma(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh floa
 		}
 
 		// calculate mean
+		if len(gatheredCur)==0 { // all values out of bounds
+			res[i]=median
+			continue
+		}
 		mean:=float32(0)
 		for _,g:=range(gatheredCur) { mean+=g }
 		mean/=float32(len(gatheredCur))
@@ -827,6 +836,11 @@ func StackWinsorSigmaWeighted(lightsData [][]float32, weights []float32, RefFram
 
 			// terminate if no more values are out of bounds, or all but one value consumed
             if (numClippedLow+numClippedHigh)==prevClipped || len(gatheredCur)<=1 {
+            	if len(gatheredCur)==0 { // all values out of bounds
+            		res[i]=median
+            		break
+            	}
+
             	// calculate weighted mean
             	weightedSum, weightsSum:=float32(0), float32(0)
             	for i,_:=range gatheredCur {
@@ -921,7 +935,7 @@ func StackLinearFit(lightsData [][]float32, RefFrameLoc, sigmaLow, sigmaHigh flo
 				}				
 			}
 
-			if left==0 || len(gatheredCur)<3{
+			if left==0 || left==len(gatheredCur) || len(gatheredCur)<3{
             	break
             }
 			gatheredCur=gatheredCur[left:]
-- 
2.43.0


From c745292d614b5b07435c918ed089c94468ffadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 19/92] fix: plan enough batches for all frames, so none are
 dropped when memory is short

---
 internal/ops/stack/stackbatches.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 53c9570..27104f5 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -168,9 +168,10 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 		numBatches = (numFrames + batchSize - 1) / batchSize
 		if numBatches > 1 {
 			batchSize -= 2 // reference frame from batch 0, and stack of stacks
-		}
-		if batchSize < 2 {
-			continue
+			if batchSize < 2 {
+				continue
+			}
+			numBatches = (numFrames + batchSize - 1) / batchSize
 		}
 		if batchSize < int64(maxThreads) {
 			continue
-- 
2.43.0


From d07c1841249b1f0134a27fddf3e475ab3faab9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 20/92] fix: report an error instead of crashing when rejected
 frames leave nothing for batching

---
 internal/ops/stack/stackbatches.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 27104f5..7a6ac1a 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -93,6 +93,10 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 			return nil, err
 		}
 
+		if batch == nil {
+			return nil, fmt.Errorf("no result for batch %d", b+1)
+		}
+
 		// Update stack of stacks
 		if numBatches > 1 {
 			stack = StackIncremental(stack, batch, float32(batchFrames))
@@ -127,9 +131,15 @@ func (op *OpStackBatches) partition(ins []ops.Promise, c *ops.Context) (insPerm
 	} else if c.FlatFrame != nil {
 		width, height = int64(c.FlatFrame.Naxisn[0]), int64(c.FlatFrame.Naxisn[1])
 	} else if len(ins) > 0 {
-		first, err := ins[0]()
-		if err != nil {
-			return nil, 0, 0, 0, err
+		var first *fits.Image
+		for i := 0; i < len(ins) && first == nil; i++ { // a prior step may have rejected some frames
+			first, err = ins[i]()
+			if err != nil {
+				return nil, 0, 0, 0, err
+			}
+		}
+		if first == nil {
+			return nil, 0, 0, 0, errors.New("No frames left to prepare batches")
 		}
 		fmt.Fprintf(c.Log, "\nEstimating memory needs for %d images from %s:\n", numFrames, first.FileName)
 		width, height = int64(first.Naxisn[0]), int64(first.Naxisn[1])
-- 
2.43.0


From f71c31ecd121d4a27e840306ec7b04162dc325ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 21/92] fix: weigh batches by the frames actually stacked, not
 counting rejected ones

---
 internal/fits/fits.go              | 1 +
 internal/ops/stack/stack.go        | 1 +
 internal/ops/stack/stackbatches.go | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index a20b614..3cb686b 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -42,6 +42,7 @@ type Image struct {
 	Data   []float32     // The image data
 
 	Exposure float32     // Image exposure in seconds
+	Stacked  int32       // Number of frames stacked into this image, or 0 if not a stack
 
 	Stats  *stats.Stats   // Basic image statistics: min, mean, max
 	MedianDiffStats *stats.Stats // Local median difference stats, for bad pixel detection, star detection
diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 8467caa..5e662dc 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -234,6 +234,7 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 	// Assemble into in-memory FITS
 	stack:=fits.NewImageFromNaxisn(f[0].Naxisn, data)
 	stack.Exposure = exposureSum
+	stack.Stacked  = int32(len(f))
 	return stack, nil
 }
 
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 7a6ac1a..fefb6e4 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -99,6 +99,9 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 
 		// Update stack of stacks
 		if numBatches > 1 {
+			if batch.Stacked > 0 { // do not count frames rejected while processing the batch
+				batchFrames = int64(batch.Stacked)
+			}
 			stack = StackIncremental(stack, batch, float32(batchFrames))
 			stackFrames += batchFrames
 		} else {
-- 
2.43.0


From 3f19d343c95ebefa098d6793ba72306baf8666f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 22/92] fix: keep frames in order when some are rejected before
 reference selection

---
 internal/ops/ref/refframe.go | 42 ++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 71e021c..c3f7dbc 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -45,6 +45,7 @@ type OpSelectReference struct {
 	StarDetect   *pre.OpStarDetect `json:"starDetect"`
 	mutex        sync.Mutex        `json:"-"`
 	materialized []*fits.Image     `json:"-"`
+	taken        []bool            `json:"-"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpSelectReferenceDefault() }) } // register the operator for JSON decoding
@@ -84,6 +85,7 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
 
+	op.materialized, op.taken = nil, nil // drop state from any prior batch
 	outs = make([]ops.Promise, len(ins))
 	for i, _ := range ins {
 		outs[i] = op.applySingle(i, ins, c)
@@ -101,13 +103,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		if (op.Target == SRAlign && c.AlignStars != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
 			op.mutex.Unlock() // unlock immediately to allow ...
-			if op.materialized == nil || op.materialized[i] == nil {
+			if i >= len(op.taken) || op.taken[i] {
 				return ins[i]() // ... materializations to be parallelized by the caller
-			} else {
-				mat := op.materialized[i]
-				op.materialized[i] = nil // remove reference to free memory
-				return mat, nil
 			}
+			return op.take(i), nil
 		}
 		defer op.mutex.Unlock() // else release lock later when reference frame is computed
 
@@ -151,7 +150,8 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		}
 
 		// otherwise, materialize the input promises
-		op.materialized, c.RefFrameError = ops.MaterializeAll(ins, c.MaxThreads, false)
+		op.materialized, c.RefFrameError = materializeInOrder(ins, c.MaxThreads)
+		op.taken = make([]bool, len(ins))
 		if c.RefFrameError != nil {
 			return nil, c.RefFrameError
 		}
@@ -191,12 +191,36 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 		op.assignResults(c, refFrame)
 
 		// return promise for the materialized image of this instance
-		mat := op.materialized[i]
-		op.materialized[i] = nil // remove reference
-		return mat, nil
+		return op.take(i), nil
 	}
 }
 
+// Returns the materialized image for the given instance, or nil if a prior step rejected it
+func (op *OpSelectReference) take(i int) (f *fits.Image) {
+	f = op.materialized[i]
+	op.materialized[i] = nil // remove reference to free memory
+	op.taken[i] = true
+	return f
+}
+
+// Materializes all promises with given concurrency limit. Keeps the order of the
+// promises, with nil entries for frames which have been rejected by a prior step
+func materializeInOrder(ins []ops.Promise, maxThreads int) (outs []*fits.Image, err error) {
+	outs = make([]*fits.Image, len(ins))
+	recorders := make([]ops.Promise, len(ins))
+	for i, in := range ins {
+		i, in := i, in
+		recorders[i] = func() (f *fits.Image, err error) {
+			outs[i], err = in()
+			return outs[i], err
+		}
+	}
+	if _, err = ops.MaterializeAll(recorders, maxThreads, true); err != nil {
+		return nil, err
+	}
+	return outs, nil
+}
+
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
 	if op.Target == SRAlign {
 		c.AlignNaxisn = refFrame.Naxisn
-- 
2.43.0


From 257ec314915dbf0e22d03da66898d14f7f7ced70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 23/92] fix: select the alignment reference only once, even if
 it has no stars

---
 internal/ops/ref/refframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index c3f7dbc..e1f594b 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -100,7 +100,7 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 			op.mutex.Unlock() // return immediately with the same error
 			return nil, errors.New("same error")
 		}
-		if (op.Target == SRAlign && c.AlignStars != nil) ||
+		if (op.Target == SRAlign && c.AlignNaxisn != nil) ||
 			(op.Target == SRHisto && c.MatchHisto != nil) { // if a reference frame already exists
 			op.mutex.Unlock() // unlock immediately to allow ...
 			if i >= len(op.taken) || op.taken[i] {
-- 
2.43.0


From 20534720d876594f93968dafe7cd3fe63eb288c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 24/92] fix: keep the histogram reference from changing while
 frames are matched against it

---
 internal/ops/ref/refframe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index e1f594b..059dfe7 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -227,7 +227,11 @@ func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image)
 		c.AlignStars = refFrame.Stars
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-		c.MatchHisto = refFrame.Stats
+		// copy the location and scale, as the stats of the reference frame change with further processing
+		histo := *refFrame.Stats
+		histo.Location()
+		histo.FreeData()
+		c.MatchHisto = &histo
 	} else {
 		fmt.Fprintf(c.Log, "Invalid reference selection target %d, skipping.\n", op.Target)
 	}
-- 
2.43.0


From 56babb30c12a911a3eed6f2e87b101c27ed530e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 25/92] fix: pass on log writes of concurrent operators one at
 a time

---
 internal/ops/operator.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index a446dc7..31b25a1 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -27,6 +27,7 @@ import (
 	"regexp"
 	"runtime"
 	"strings"
+	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/star"
@@ -59,7 +60,7 @@ type Context struct {
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
 	memoryMB := int(memory.TotalMemory() / 1024 / 1024)
 	return &Context{
-		Log:             log,
+		Log:             &lockedWriter{w: log},
 		LSEstimatorMode: lsEstimatorMode,
 		MemoryMB:        memoryMB,
 		StackMemoryMB:   stMemory,
@@ -67,6 +68,18 @@ func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMo
 	}
 }
 
+// A writer which passes on one write at a time, so concurrent operators can share a log
+type lockedWriter struct {
+	mutex sync.Mutex
+	w     io.Writer
+}
+
+func (l *lockedWriter) Write(p []byte) (n int, err error) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
+	return l.w.Write(p)
+}
+
 // A promise for a FITS image. Returns a materialized image, or an error
 type Promise func() (f *fits.Image, err error)
 
-- 
2.43.0


From f5a0f6ea25a21f489106eed53e26a25c47777dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 26/92] fix: write the extracted background when a save pattern
 is given

---
 internal/ops/pre/preprocess.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 2a2cfbf..56d28a8 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -386,8 +386,13 @@ func (op *OpBackExtract) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	} else {
 		bgData := bg.Render()
 		bgFits := fits.NewImageFromNaxisn(f.Naxisn, bgData)
+		bgFits.ID = f.ID
 		promise := func() (f *fits.Image, err error) { return bgFits, nil }
-		_, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		promises, err := op.Save.MakePromises([]ops.Promise{promise}, c)
+		if err != nil {
+			return nil, err
+		}
+		_, err = promises[0]()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bd8510e4d661201157c2df9da1fbda56dabde89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 27/92] fix: write the footer of the statistics file without
 batching and with rejected frames, and report write errors

---
 internal/ops/ref/exportstats.go | 68 +++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 6516ef0..5a8a621 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -60,6 +60,54 @@ func (op *OpExportStats) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// Counts all inputs including rejected and failed ones, so the footer is written after the last one
+func (op *OpExportStats) MakePromises(ins []ops.Promise, c *ops.Context) (outs []ops.Promise, err error) {
+	if len(ins) == 0 {
+		return nil, fmt.Errorf("%s operator with %d inputs", op.Type, len(ins))
+	}
+	if c.StatsTotal == 0 { // unless batching has set the total across all batches
+		c.StatsTotal = len(ins)
+	}
+	outs = make([]ops.Promise, len(ins))
+	for i, in := range ins {
+		theIn := in
+		outs[i] = func() (f *fits.Image, err error) {
+			if f, err = theIn(); err != nil {
+				op.skip(c)
+				return nil, err
+			}
+			if f == nil { // skip images rejected by a prior step
+				return nil, op.skip(c)
+			}
+			return op.Apply(f, c)
+		}
+	}
+	return outs, nil
+}
+
+// Counts an input without statistics
+func (op *OpExportStats) skip(c *ops.Context) error {
+	if op.FileName == "" {
+		return nil
+	}
+	op.mutex.Lock()
+	defer op.mutex.Unlock()
+	return op.finishOne(c)
+}
+
+// Counts a finished input. Writes the footer if it was the last
+func (op *OpExportStats) finishOne(c *ops.Context) error {
+	c.StatsProcessed++
+	if c.StatsProcessed < c.StatsTotal {
+		return nil
+	}
+	c.StatsTotal, c.StatsProcessed = 0, 0
+	if c.StatsFile == nil {
+		return nil
+	}
+	return op.writeFooter(c)
+}
+
 func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.FileName == "" {
 		fmt.Fprintf(c.Log, "%d: exportStats empty fileName\n", f.ID)
@@ -70,18 +118,16 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	defer op.mutex.Unlock() // always release lock on exit
 
 	// write stats
-	if c.StatsProcessed == 0 {
+	if c.StatsFile == nil {
 		err = op.writeHeader(c)
 		if err != nil {
 			return nil, err
 		}
 	}
 	op.writeStats(f, c)
-	c.StatsProcessed++
-	if c.StatsProcessed == c.StatsTotal {
-		op.writeFooter(c)
+	if err = op.finishOne(c); err != nil {
+		return nil, err
 	}
-
 	return f, nil
 }
 
@@ -106,14 +152,20 @@ func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) {
+func (op *OpExportStats) writeFooter(c *ops.Context) error {
 	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
 	fmt.Fprintf(c.StatsBufWriter, "]")
 	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	c.StatsBufWriter.Flush()
+	err := c.StatsBufWriter.Flush() // also reports errors of prior buffered writes
 	c.StatsBufWriter = nil
-	c.StatsFile.Close()
+	if cerr := c.StatsFile.Close(); err == nil {
+		err = cerr
+	}
 	c.StatsFile = nil
+	if err != nil {
+		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
+	}
+	return nil
 }
 
 const sessionStatsHeader = `<html>
-- 
2.43.0


From f67f230637c4418f7f4f1c432f3169510595cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 28/92] fix: fade background colors in between the low and high
 thresholds, instead of a hard cutoff

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 9896fb4..8b9f1a4 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -470,7 +470,7 @@ type pf3ChanNeutralizeBackgroundArgs struct {
 // RGB pixel function to adjust CIE HCL chroma by multiplying with 0 for values below low, with 1 above high, and interpolating linearly in between. 
 // Data must be HCL. 2nd parameter must be a pf3ChanNeutralizeBackgroundArgs. Operates in-place. 
 func pf3ChanNeutralizeBackground(hs,cs,ls []float32, params interface{}) {
-	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).Low
+	low, high:=params.(pf3ChanNeutralizeBackgroundArgs).Low, params.(pf3ChanNeutralizeBackgroundArgs).High
 	scaler:=float32(0)
 	if high>low { scaler=1.0/(high-low) }
 	for i, l:=range ls {
-- 
2.43.0


From f0b8ee775c2244f712dd1b5eb1abea44019f0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 29/92] fix: keep cached statistics right when scaling by a
 negative factor

---
 internal/stats/stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 9724bf9..f17141e 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -92,8 +92,12 @@ func (s *Stats) UpdateCachedWith(multiplier, offset float32) {
 	s.min = s.min*multiplier + offset
 	s.max = s.max*multiplier + offset
 	s.mean = s.mean*multiplier + offset
-	s.stdDev = s.stdDev * multiplier
 	s.location = s.location*multiplier + offset
+	if multiplier < 0 { // reverses the value range, while measures of spread stay positive
+		s.min, s.max = s.max, s.min
+		multiplier = -multiplier
+	}
+	s.stdDev = s.stdDev * multiplier
 	s.scale = s.scale * multiplier
 	s.noise = s.noise * multiplier
 }
-- 
2.43.0


From c74f9ba4e6eaf6b293b28d6a0f126d5aa146e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 30/92] fix: keep the HFR of aligned frames, so HFR weighted
 stacking can use it

---
 internal/fits/project.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/project.go b/internal/fits/project.go
index 785bc5b..31fe35b 100644
--- a/internal/fits/project.go
+++ b/internal/fits/project.go
@@ -33,7 +33,7 @@ func (img *Image) Project(destNaxisn []int32, trans star.Transform2D, outOfBound
 	// Create new FITS image for the result
 	destWidth := destNaxisn[0]
 	res = NewImageFromNaxisn(destNaxisn, nil)
-	res.ID, res.Exposure = img.ID, img.Exposure
+	res.ID, res.Exposure, res.HFR = img.ID, img.Exposure, img.HFR
 
 	// Resample image from the target coordinate system PoV
 	d := img.Data
-- 
2.43.0


From 3a1511b88566bed1923573fd291b3802e85826e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 31/92] fix: estimate the noise of aligned frames from their
 valid pixels, instead of returning NaN

---
 internal/stats/noise.go | 22 ++++++++++++++++++++++
 internal/stats/stats.go |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/internal/stats/noise.go b/internal/stats/noise.go
index 730f043..09b18c0 100644
--- a/internal/stats/noise.go
+++ b/internal/stats/noise.go
@@ -53,3 +53,25 @@ func estimateNoisePureGo(data []float32, width int32) float32 {
     factor:=float32(math.Sqrt(0.5*math.Pi)) / (6 * float32(width-2) * float32(height - 2))
     return sum*factor
 }
+
+// Estimate the level of gaussian noise on a natural image, ignoring pixels whose neighborhood contains NaNs
+func estimateNoiseSkipNaNs(data []float32, width int32) float32 {
+	height := int32(len(data)) / width
+	sum, num := float64(0), 0
+	for y := int32(1); y < height-1; y++ {
+		for x := int32(1); x < width-1; x++ {
+			conv := float32(0)
+			for j, w := range enWeights {
+				conv += data[(y+int32(j)/3-1)*width+x+int32(j)%3-1] * w
+			}
+			if !math.IsNaN(float64(conv)) {
+				sum += math.Abs(float64(conv))
+				num++
+			}
+		}
+	}
+	if num == 0 {
+		return 0
+	}
+	return float32(sum * math.Sqrt(0.5*math.Pi) / (6 * float64(num)))
+}
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index f17141e..b02c147 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -173,6 +173,9 @@ func (s *Stats) Noise() float32 {
 			panic("Cannot calculate stats on nil data")
 		}
 		s.noise = EstimateNoise(s.data, s.width)
+		if math.IsNaN(float64(s.noise)) { // aligned images have NaNs for pixels outside the original image
+			s.noise = estimateNoiseSkipNaNs(s.data, s.width)
+		}
 		s.haveNoise = true
 	}
 	return s.noise
-- 
2.43.0


From af1641cf1097139f96dc44d33d354371c911fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 32/92] fix: report an error when aligning without the
 histogram reference to fill in pixels

---
 internal/ops/post/postprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/post/postprocess.go b/internal/ops/post/postprocess.go
index a31d57c..212fb3a 100644
--- a/internal/ops/post/postprocess.go
+++ b/internal/ops/post/postprocess.go
@@ -167,6 +167,9 @@ func (op *OpAlign) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err
 		case OOBModeNaN:
 			outOfBounds = float32(math.NaN())
 		case OOBModeRefLocation:
+			if c.MatchHisto == nil {
+				return nil, errors.New("missing histogram reference for filling in pixels")
+			}
 			outOfBounds = c.MatchHisto.Location()
 		case OOBModeOwnLocation:
 			outOfBounds = f.Stats.Location()
-- 
2.43.0


From 692f44609fd1182b6100218b558429a72deffc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 33/92] fix: report an error when binning images smaller than
 the bin, instead of crashing later

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 56d28a8..1d04f96 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -325,6 +325,9 @@ func (op *OpBin) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err e
 	if op.BinSize <= 1 {
 		return f, nil
 	}
+	if f.Naxisn[0] < op.BinSize || f.Naxisn[1] < op.BinSize {
+		return nil, fmt.Errorf("%d: %s image is too small for %dx%d binning", f.ID, f.DimensionsToString(), op.BinSize, op.BinSize)
+	}
 	f = fits.NewImageBinNxN(f, op.BinSize)
 	fmt.Fprintf(c.Log, "%d: After %xx%d binning, new image size %dx%d\n", f.ID, op.BinSize, op.BinSize, f.Naxisn[0], f.Naxisn[1])
 	return f, nil
-- 
2.43.0


From aa5065b07c0371bb1ed296a334e8e4964e4dc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 34/92] fix: write string header keywords once instead of twice

---
 internal/fits/write.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 657dccb..1b8be80 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -94,7 +94,6 @@ func (h *Header) Write(w io.Writer) {
 	for k,v:=range(h.Ints   ) { writeInt32  (w, k, v, "") }
 	for k,v:=range(h.Floats ) { writeFloat32(w, k, v, "") }
 	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
-	for k,v:=range(h.Strings) { writeString (w, k, v, "") }
 	for k,v:=range(h.Dates  ) { writeString (w, k, v, "") }
 	// FIXME: ignoring h.Comments and h.History for now
 }
-- 
2.43.0


From c6e695a7c0ebf7ceb93df7cf19972169236644ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 35/92] fix: fill the last block of image data with zeros, as
 the FITS standard requires

---
 internal/fits/write.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/fits/write.go b/internal/fits/write.go
index 1b8be80..2e8ebc3 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -198,15 +198,11 @@ func writeFloat32Array(w io.Writer, data []float32, replaceNaNs bool) error {
 		if err!=nil { return err }
 	}
 
-	// complete the last partial block, for strictly FITS compliant software
+	// complete the last partial block with zeros, for strictly FITS compliant software
 	bytesWritten:=len(data)<<2
 	lastPartialBlock:=bytesWritten % 2880
 	if lastPartialBlock!=0 {
-		sb:=strings.Builder{}
-		for i:=lastPartialBlock; i<2880; i++ {
-			sb.WriteRune(' ')
-		}
-		_, err:=w.Write([]byte(sb.String()))
+		_, err:=w.Write(make([]byte, 2880-lastPartialBlock))
 		if err!=nil { return err }
 	}
 	
-- 
2.43.0


From 52930188a76daf59f365ae3f058c7be6d58d98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 36/92] fix: read back header strings with quotes or
 continuation lines as they were written

---
 internal/fits/fits.go  |  1 +
 internal/fits/read.go  | 24 +++++++++++++++++++-----
 internal/fits/write.go | 19 +++++++++++++------
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 3cb686b..552e8f1 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -127,6 +127,7 @@ type Header struct {
 	History  []string
 	End      bool
 	Length   int32
+	continued string // key of the string in the line before, which a CONTINUE line may extend
 }
 
 // Creates a FITS header initialized with empty maps and arrays
diff --git a/internal/fits/read.go b/internal/fits/read.go
index 86cdc2e..0b75661 100644
--- a/internal/fits/read.go
+++ b/internal/fits/read.go
@@ -484,7 +484,8 @@ func (h *Header) read(r io.Reader, id int, logWriter io.Writer) error {
 }
 
 func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int, logWriter io.Writer) {
-	key := ""
+	key, continued := "", h.continued
+	h.continued = ""
 	// ignore index 0 which is the whole line
 	for i := 1; i < len(subNames); i++ {
 		if subValues[i] != nil && len(subNames[i]) == 1 {
@@ -518,7 +519,13 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 					h.Floats[key] = float32(val)
 				}
 			case byte('s'): // string
-				h.Strings[key] = string(subValues[i])
+				h.Strings[key] = unescapeString(subValues[i])
+				h.continued = key
+			case byte('x'): // continuation of the string in the line before
+				if v, ok := h.Strings[continued]; ok && strings.HasSuffix(v, "&") {
+					h.Strings[continued] = v[:len(v)-1] + unescapeString(subValues[i])
+					h.continued = continued
+				}
 			case byte('d'): // date
 				h.Dates[key] = string(subValues[i])
 			case byte('c'): // comment
@@ -530,6 +537,11 @@ func (h *Header) readLine(subNames []string, subValues [][]byte, id, lineNo int,
 	}
 }
 
+// Resolves the '' escape sequence in header strings
+func unescapeString(v []byte) string {
+	return strings.Replace(string(v), "''", "'", -1)
+}
+
 func (h *Header) Print() {
 	fmt.Printf("Bools   : %v\n", h.Bools)
 	fmt.Printf("Ints    : %v\n", h.Ints)
@@ -563,17 +575,19 @@ func compileRE() *regexp.Regexp {
 	boo := "(?P<b>[TF])"
 	inte := "(?P<i>[+-]?[0-9]+)"
 	floa := "(?P<f>[+-]?(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[EeD][-+]?[0-9]+)?)"
-	stri := "'(?P<s>[^']*)'"
+	chars := "(?:[^']|'')*"
+	stri := "'(?P<s>" + chars + ")'"
 	date := "(?P<d>[0-9]{1,4}-?[012][0-9]-?[0123][0-9]T[012][0-9]:?[0-5][0-9]:?[0-5][0-9].?[0-9]*)" // FIXME: other variants possible, see ISO8601
 	val := "(?:" + boo + "|" + inte + "|" + floa + "|" + stri + "|" + date + ")"
 
-	// missing: CONTINUE for strings
 	// missing: complex int: (nr, nr)
 	// missing: complex float: (nr, nr)
 
 	commOpt := "(?:/(?P<c>.*))?"
 	keyLine := key + whiteOpt + equals + whiteOpt + val + whiteOpt + commOpt
 
-	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + endLine + ")$"
+	contLine := "CONTINUE" + white + "'(?P<x>" + chars + ")'" + whiteOpt + commOpt
+
+	lineRe := "^(?:" + whiteLine + "|" + histLine + "|" + commLine + "|" + keyLine + "|" + contLine + "|" + endLine + ")$"
 	return regexp.MustCompile(lineRe)
 }
diff --git a/internal/fits/write.go b/internal/fits/write.go
index 2e8ebc3..a0fff0f 100644
--- a/internal/fits/write.go
+++ b/internal/fits/write.go
@@ -155,22 +155,29 @@ func writeString(w io.Writer, key, value, comment string) {
 
 	// escape ' characters
 	value=strings.Join(strings.Split(value, "'"), "''")
-	// FIXME: Malformatted output ERROR if printing breaks the '' characters!
-
 	if len(value)<=18 {
 		fmt.Fprintf(w, "%-8s= '%s'%s / %-47s", key, value, strings.Repeat(" ", 18-len(value)), comment)
 	} else {
-		fmt.Fprintf(w, "%-8s= '%s&' / %-47s", key, value[0:17], comment)
-		value=value[17:]
+		part, value:=splitEscaped(value, 17)
+		fmt.Fprintf(w, "%-8s= '%s&'%s / %-47s", key, part, strings.Repeat(" ", 17-len(part)), comment)
 		for ; len(value)>66 ; {
-			fmt.Fprintf(w, "CONTINUE  '%s&' ", value[0:66])
-			value=value[66:]
+			part, value=splitEscaped(value, 66)
+			fmt.Fprintf(w, "CONTINUE  '%s&'%s ", part, strings.Repeat(" ", 66-len(part)))
 		}
 		fmt.Fprintf(w, "CONTINUE  '%s'%s", value, strings.Repeat(" ", 50+(18-len(value))))
 	}	
 }
 
 
+// Splits off up to n characters, without breaking an escaped '' pair
+func splitEscaped(value string, n int) (part, rest string) {
+	quotes:=0
+	for quotes<n && value[n-1-quotes]=='\'' { quotes++ }
+	if quotes & 1 != 0 { n-- }
+	return value[:n], value[n:]
+}
+
+
 // Writes a FITS header end record 
 func writeEnd(w io.Writer) {
 	fmt.Fprintf(w, "END%s", strings.Repeat(" ", 80-3))
-- 
2.43.0


From 2f8cca9a25af0669de695e2f612f2d51fe50c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 37/92] fix: update statistics after debayering, bad pixel
 removal, blur, unsharp masking and applying luminance

---
 internal/fits/rgb.go            | 1 +
 internal/ops/hsl/hsl.go         | 1 +
 internal/ops/pre/preprocess.go  | 3 +++
 internal/ops/stretch/stretch.go | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index ecf52ea..a4c5779 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -84,6 +84,7 @@ func (hsl *Image) ApplyLuminanceToCIExyY(lum *Image) {
 	l:=len(hsl.Data)/3
 	dest:=hsl.Data[2*l:]
 	copy(dest, lum.Data)
+	hsl.Stats.Clear()
 	hsl.Exposure+=lum.Exposure
 }
 
diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 22bb3f0..79a78da 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -552,6 +552,7 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	for i := range sharpened {
 		f.Data[2*f.Pixels/3+int32(i)] = sharpened[i]
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 1d04f96..93ec5e1 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -24,6 +24,7 @@ import (
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
 	"github.com/mlnoga/nightlight/internal/star"
+	"github.com/mlnoga/nightlight/internal/stats"
 )
 
 type OpCalibrate struct {
@@ -197,6 +198,7 @@ func (op *OpBadPixel) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 		fmt.Fprintf(c.Log, "%d: Removed %d bad bayer pixels (%.2f%%) with sigma low=%.2f high=%.2f\n",
 			f.ID, numRemoved, 100.0*float32(numRemoved)/float32(f.Pixels), op.SigmaLow, op.SigmaHigh)
 	}
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -243,6 +245,7 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	}
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
+	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
 	fmt.Fprintf(c.Log, "%d: Debayered channel %s from cfa %s, new size %dx%d\n", f.ID, op.Channel, op.ColorFilterArray, f.Naxisn[0], f.Naxisn[1])
 
 	return f, nil
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index fdace99..a8965ae 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -372,6 +372,7 @@ func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Ima
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=GaussianBlur(f.Data, int(f.Naxisn[0]), op.Sigma)
+	f.Stats.Clear()
 	return f, nil
 }
 
@@ -420,5 +421,6 @@ func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	fmt.Fprintf(c.Log, "%d: Unsharp masking kernel sigma %.2f size %d: %v\n", 
 		        f.ID, op.Sigma, len(kernel), kernel)
 	f.Data=UnsharpMask(f.Data, int(f.Naxisn[0]), op.Sigma, op.Gain, f.Stats.Min(), f.Stats.Max(), absThresh)
+	f.Stats.SetData(f.Data)
 	return f, nil
 }
-- 
2.43.0


From 3d7aaeedb0adf56f5db9f7d876c73db38338eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 38/92] fix: report an error when color channels are missing or
 of different sizes, instead of mixing them up or crashing

---
 internal/ops/rgb/rgb.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index f530d65..042c65e 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -62,6 +62,9 @@ func (op *OpRGBCombine) MakePromises(ins []ops.Promise, c *ops.Context) (outs []
 		if err != nil {
 			return nil, err
 		}
+		if len(fs) < len(ins) { // do not mix up the remaining channels
+			return nil, fmt.Errorf("%d of %d color channels were rejected in a prior step", len(ins)-len(fs), len(ins))
+		}
 		return op.Apply(fs, c)
 	}
 	return []ops.Promise{out}, nil
@@ -71,6 +74,11 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 	if len(fs) < 3 || len(fs) > 4 {
 		return nil, fmt.Errorf("invalid number of channels for color combination: %d", len(fs))
 	}
+	for _, f := range fs[1:] {
+		if !fits.EqualInt32Slice(f.Naxisn, fs[0].Naxisn) {
+			return nil, fmt.Errorf("%d: dimensions %v differ from dimensions %v of the first color channel", f.ID, f.Naxisn, fs[0].Naxisn)
+		}
+	}
 	if len(fs) == 4 {
 		c.LumFrame = fs[3]
 	}
-- 
2.43.0


From 25bd5152d437432e26c72e39a50cf4e962a6469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 39/92] fix: keep the color filter settings for bad pixel
 removal in JSON job files

---
 internal/ops/pre/preprocess.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 93ec5e1..7aeed07 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -147,7 +147,7 @@ type OpBadPixel struct {
 	ops.OpUnaryBase
 	SigmaLow  float32    `json:"sigmaLow"`
 	SigmaHigh float32    `json:"sigmaHigh"`
-	Debayer   *OpDebayer `json:"-"`
+	Debayer   *OpDebayer `json:"debayer,omitempty"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpBadPixelDefaults() }) } // register the operator for JSON decoding
-- 
2.43.0


From 8fb792ef3ac11642c196f0c80edc3606658f13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 40/92] fix: slope of the linear regression, which was too
 small by a factor of n/(n+1)

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index b02c147..a493982 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -583,7 +583,7 @@ func LinearRegression(xs, ys []float32) (slope, intercept, xmean, xstddev, ymean
 		diff := (xs[i] - xmean) * (ys[i] - ymean)
 		corr += diff
 	}
-	corr /= xstddev * ystddev * (float32(len(xs)) + 1)
+	corr /= xstddev * ystddev * float32(len(xs))
 
 	// calculate the regression line
 	slope = corr * ystddev / xstddev
-- 
2.43.0


From 178d8cbb0a34b71e5452fe5f4eeb4d5a8639b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 41/92] fix: fill pixels without valid data in any frame with
 the location of the reference frame, not zero

---
 internal/ops/stack/stack.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 5e662dc..4270a1a 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -135,6 +135,10 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 		return nil, errors.New("MADSigma stacking with weights is still unimplemented")
 	}
 
+	// value for pixels without valid data in any frame
+	refFrameLoc:=op.RefFrameLoc
+	if refFrameLoc==0 && c.MatchHisto!=nil { refFrameLoc=c.MatchHisto.Location() }
+
 	// select weights if applicable
 	weights, err:=getWeights(f, op.Weighting)
 	if err!=nil { return nil, err }
@@ -166,38 +170,38 @@ func (op *OpStack) Apply(f []*fits.Image, c *ops.Context) (result *fits.Image, e
 			// run stacking for the given batch
 			switch mode {
 			case StMedian:
-				StackMedian(ldBatch, op.RefFrameLoc, data[lower:upper])
+				StackMedian(ldBatch, refFrameLoc, data[lower:upper])
 
 			case StMean: 
 				if weights==nil {
-					StackMean(ldBatch, op.RefFrameLoc, data[lower:upper])
+					StackMean(ldBatch, refFrameLoc, data[lower:upper])
 				} else {
-					StackMeanWeighted(ldBatch, weights, op.RefFrameLoc, data[lower:upper])
+					StackMeanWeighted(ldBatch, weights, refFrameLoc, data[lower:upper])
 				}
 
 			case StSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				}
 
 			case StWinsorSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackWinsorSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				} else {
-					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackWinsorSigmaWeighted(ldBatch, weights, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				}
 
 			case StMADSigma:
 				if weights==nil {
-					clipLow, clipHigh=StackMADSigma(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+					clipLow, clipHigh=StackMADSigma(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 				} else {
 					panic("MADSigma stacking with weights is still unimplemented")
 				}
 
 			case StLinearFit:
-				clipLow, clipHigh=StackLinearFit(ldBatch, op.RefFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
+				clipLow, clipHigh=StackLinearFit(ldBatch, refFrameLoc, op.SigmaLow, op.SigmaHigh, data[lower:upper])
 			} 
 
 			// update clipping totals
-- 
2.43.0


From 1f3c7af3b1286168a0d8cbe120c3d7d075f2bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 42/92] fix: report an error instead of crashing when no frames
 are left to select the median location from

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 059dfe7..7909d1b 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -259,6 +259,9 @@ func selectReferenceMedianLoc(lights []*fits.Image, c *ops.Context) (refFrame *f
 	fun := func(f *fits.Image) float32 { return f.Stats.Location() }
 	locs := inParallel(lights, fun, c.MaxThreads)
 	locs = removeNaNs(locs)
+	if len(locs) == 0 {
+		return nil, 0, errors.New("Unable to select reference frame with median location")
+	}
 
 	// calculate median
 	medianLoc := qsort.QSelectMedianFloat32(locs)
-- 
2.43.0


From 26c1c91789c36053a33b4ff6500ca1c78e786934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 43/92] fix: report an error for HFR weights of frames without
 stars, instead of returning NaN

---
 internal/ops/stack/stack.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ops/stack/stack.go b/internal/ops/stack/stack.go
index 4270a1a..cc12dc2 100644
--- a/internal/ops/stack/stack.go
+++ b/internal/ops/stack/stack.go
@@ -272,6 +272,7 @@ func getWeights(f []*fits.Image, weighting StackWeighting) (weights []float32, e
 		minHFR, maxHFR:=float32(math.MaxFloat32), float32(-math.MaxFloat32)
 		for i:=0; i<len(f); i+=1 {
 			h:=f[i].HFR
+			if math.IsNaN(float64(h)) { return nil, errors.New(fmt.Sprintf("%d: Missing HFR information for HFR-weighted stacking", f[i].ID)) }
 			if h<minHFR { minHFR=h }
 			if h>maxHFR { maxHFR=h }
 		}		
-- 
2.43.0


From b308f8ca7bd1d991fdc5d3a2565846335b157e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 44/92] fix: end the IKSS estimation when more than half of the
 pixels are identical, instead of looping forever

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index a493982..2737a5e 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -554,7 +554,7 @@ func IKSS(data []float32, epsilon float32, e float32) (location, scale float32)
 		}
 		m := xs[(i+j)>>1] // median is easy as xs are sorted
 		s := float32(math.Sqrt(float64(bwmv(xs[i:j], m, tmp))))
-		if s < epsilon {
+		if !(s >= epsilon) { // also if NaN, as more than half of the values are identical
 			return m, 0
 		}
 		if s0-s < s*epsilon {
-- 
2.43.0


From cca80b0d09ddcad161ebc7ef6eb08944548f3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 45/92] fix: statistics and star detection of files with NaN or
 infinite pixels, which crashed or hung

---
 internal/star/findstars.go |  8 ++---
 internal/stats/stats.go    | 65 ++++++++++++++++++++++++++++++--------
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 2ccc4a8..4ba961c 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -106,7 +106,7 @@ func findBrightPixels(data []float32, width int32, threshold float32, radius int
 	stars:=make([]Star,len(data)/100)[:0] // []Star{}
 
 	for i,v :=range data {
-		if v>threshold {
+		if v>threshold && v<=math.MaxFloat32 { // skip invalid pixels
 			is:=Star{Index:int32(i), Value:v, X:float32(int32(i) % width), Y:float32(int32(i) / width), Mass:v, HFR:1}
 
 			// check if within radius distance of the previously detected candidate star to optimize memory usage
@@ -288,7 +288,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 					value:=float32(0)
 					if index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
-						if value<0 { value=0 }
+						if !(value>=0 && value<=math.MaxFloat32) { value=0 } // also for invalid pixels
 					}
 					xMoment+=float32(x)*value
 					yMoment+=float32(y)*value
@@ -343,7 +343,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
 				moment  +=distance*value
 				mass    +=value
@@ -369,7 +369,7 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				value:=float32(0.0)
 				if index>=0 && index<int32(len(data)) {
 					v:=data[index]-location
-					if v>0 { value=v }
+					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
 				innerMass  +=value
 				innerPixels++
diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 2737a5e..e07e901 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -64,7 +64,8 @@ func NewStats(d []float32, w int32) *Stats {
 }
 
 func NewStatsWithMMM(d []float32, w int32, min, max, mean float32) *Stats {
-	return &Stats{data: d, width: w, min: min, max: max, mean: mean, haveMMM: true}
+	haveMMM := isFinite(min) && isFinite(max) && isFinite(mean) // else, recalculate from valid values on demand
+	return &Stats{data: d, width: w, min: min, max: max, mean: mean, haveMMM: haveMMM}
 }
 
 func NewStatsForChannel(hcl []float32, w int32, ch, numCh int) *Stats {
@@ -107,8 +108,7 @@ func (s *Stats) Min() float32 {
 		if s.data == nil {
 			panic("Cannot calculate stats on nil data")
 		}
-		s.min, s.mean, s.max = calcMinMeanMax(s.data)
-		s.haveMMM = true
+		s.updateMinMeanMax()
 	}
 	return s.min
 }
@@ -118,8 +118,7 @@ func (s *Stats) Max() float32 {
 		if s.data == nil {
 			panic("Cannot calculate stats on nil data")
 		}
-		s.min, s.mean, s.max = calcMinMeanMax(s.data)
-		s.haveMMM = true
+		s.updateMinMeanMax()
 	}
 	return s.max
 }
@@ -129,8 +128,7 @@ func (s *Stats) Mean() float32 {
 		if s.data == nil {
 			panic("Cannot calculate stats on nil data")
 		}
-		s.min, s.mean, s.max = calcMinMeanMax(s.data)
-		s.haveMMM = true
+		s.updateMinMeanMax()
 	}
 	return s.mean
 }
@@ -140,7 +138,8 @@ func (s *Stats) StdDev() float32 {
 		if s.data == nil {
 			panic("Cannot calculate stats on nil data")
 		}
-		variance := calcVariance(s.data, s.Mean())
+		mean := s.Mean()
+		variance := calcVariance(validValues(s.data), mean)
 		s.stdDev = float32(math.Sqrt(float64(variance)))
 		s.haveStdDev = true
 	}
@@ -228,24 +227,62 @@ func (s *Stats) StringEager() string {
 		s.Min(), s.Max(), s.Mean(), s.StdDev(), s.Location(), s.Scale(), s.Noise())
 }
 
-// Calculates extended statistics and stores in f.Stats
+// Returns true if the value is neither NaN nor infinite
+func isFinite(v float32) bool {
+	return v-v == 0
+}
+
+// Returns the valid values of the data. These are the data themselves, or a copy without values which are NaN or infinite
+func validValues(data []float32) []float32 {
+	for i, d := range data {
+		if !isFinite(d) {
+			valid := append(make([]float32, 0, len(data)), data[:i]...)
+			for _, d := range data[i:] {
+				if isFinite(d) {
+					valid = append(valid, d)
+				}
+			}
+			return valid
+		}
+	}
+	return data
+}
+
+// Calculates minimum, mean and maximum of valid values. If there are none, these are NaN
+func (s *Stats) updateMinMeanMax() {
+	if valid := validValues(s.data); len(valid) > 0 {
+		s.min, s.mean, s.max = calcMinMeanMax(valid)
+	} else {
+		nan := float32(math.NaN())
+		s.min, s.mean, s.max = nan, nan, nan
+	}
+	s.haveMMM = true
+}
+
+// Calculates extended statistics of valid values and stores in f.Stats
 func (s *Stats) updateLocationScale() {
 	numSamples := 128 * 1024
+	data := validValues(s.data)
+	if len(data) == 0 {
+		s.location, s.scale = float32(math.NaN()), float32(math.NaN())
+		s.haveLocScale = true
+		return
+	}
 
 	switch LSEstimator {
 	case LSEMeanStdDev:
 		s.location, s.scale = s.Mean(), s.StdDev()
 	case LSEMedianMAD:
 		samples := make([]float32, numSamples)
-		s.location = FastApproxMedian(s.data, samples)
-		s.scale = FastApproxMAD(s.data, s.location, samples)
+		s.location = FastApproxMedian(data, samples)
+		s.scale = FastApproxMAD(data, s.location, samples)
 		samples = nil
 	case LSEIKSS:
-		s.location, s.scale = IKSS(s.data, 1e-6, float32(math.Pow(2, -23)))
+		s.location, s.scale = IKSS(data, 1e-6, float32(math.Pow(2, -23)))
 	case LSESCMedianQn:
-		s.location, s.scale = FastApproxSigmaClippedMedianAndQn(s.data, 2, 2, (s.Max()-s.Min())/(65535.0), numSamples)
+		s.location, s.scale = FastApproxSigmaClippedMedianAndQn(data, 2, 2, (s.Max()-s.Min())/(65535.0), numSamples)
 	case LSEHistogram:
-		s.location, s.scale = HistogramScaleLoc(s.data, s.Min(), s.Max(), 4096)
+		s.location, s.scale = HistogramScaleLoc(data, s.Min(), s.Max(), 4096)
 	}
 	s.haveLocScale = true
 }
-- 
2.43.0


From e22b73f632697f34d486421180586b315d02c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 46/92] fix: midtones function clips values below the black
 point to zero instead of making them negative

---
 internal/fits/pixelops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 8b9f1a4..4d6677a 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -219,7 +219,7 @@ func pfMidtones(data []float32, params interface{}) {
 	for i, d:=range data {
 		value:=d*(mid-1.0) / ((2.0*mid -1.0)*d - mid)
 		if value<clipLow { 
-			value=0 
+			value=clipLow 
 	    } else if value>clipHigh {
 	    	value=1
 	    }
-- 
2.43.0


From 102555a4cea873d80743aab34ad5f0f125a2eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 47/92] fix: sparse median at the image border includes
 leftover values of the previous pixel

---
 internal/median/gather.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/gather.go b/internal/median/gather.go
index 5d68a89..04aaf7e 100644
--- a/internal/median/gather.go
+++ b/internal/median/gather.go
@@ -34,5 +34,5 @@ func GatherAndMedian(data []float32, index int32, mask []int32, buffer []float32
 		}
 	}
 
-	return MedianFloat32(buffer)
+	return MedianFloat32(buffer[:num])
 }
-- 
2.43.0


From 0fc6aaed77ecada7474af62ec9310b06c66c3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 48/92] fix: Gaussian kernels for small sigma, or larger than
 the image, crash

---
 internal/ops/stretch/usm.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 91ad6b0..27992ea 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -23,11 +23,12 @@ const sqrt2 float32 = float32(math.Sqrt2)
 
 // Check if coordinate is within [0, size-1], and if not, reflect out of bounds coordinates back into the value range
 func reflect(size, x int) int {
-	if x < 0 {
-		return -x - 1
-	}
-	if x >= size {
-		return 2*size - x - 1
+	for x < 0 || x >= size { // repeatedly, as the kernel may be larger than the image
+		if x < 0 {
+			x = -x - 1
+		} else {
+			x = 2*size - x - 1
+		}
 	}
 	return x
 }
@@ -52,6 +53,9 @@ func GaussianKernel1D(sigma float32) (kernel []float32) {
 		}
 		radius++
 	}
+	if radius < 0 {
+		radius = 0 // almost all of the area is in the center element
+	}
 	width := 2*radius + 1
 	kernel = make([]float32, width)
 
-- 
2.43.0


From db2b2a1ed806067776eea7627e9103dde89d0780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 49/92] fix: debanding images with a fully bright or zero row
 or column, which crashed or gave infinite values

---
 internal/ops/pre/banding.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/banding.go b/internal/ops/pre/banding.go
index c2a3eae..7c95884 100644
--- a/internal/ops/pre/banding.go
+++ b/internal/ops/pre/banding.go
@@ -88,6 +88,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 				numSamples++
 			}
 		}
+		if numSamples==0 { numSamples=copy(rowBuffer, ds) } // the entire row is above the threshold
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		rowPercentiles[row]=qsort.QSelectFloat32(rowBuffer[:numSamples],int(k))
 	}
@@ -116,6 +117,7 @@ func (op *OpDebandHoriz) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 
 		// calculate local correction factor
 		factor:=medianOfRowPercentiles / rowPercentiles[row]
+		if rowPercentiles[row]==0 { factor=1 } // cannot be corrected by multiplication
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
@@ -195,7 +197,7 @@ func (op *OpDebandVert) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if op.Percentile<=0 || op.Percentile>=100 { return f, nil }
+	if op.Percentile<=0 || op.Percentile>=100 || op.Window<=0 { return f, nil }
 
 	// obtain dimensions
 	numCols, numRows   :=f.Naxisn[0], f.Naxisn[1]
@@ -224,6 +226,11 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 				numSamples++
 			}
 		}
+		if numSamples==0 { // the entire column is above the threshold
+			for ; numSamples<int(numRows); numSamples++ {
+				colBuffer[numSamples]=f.Data[int32(numSamples)*numCols + col]
+			}
+		}
 		k:=int(float32(numSamples)*op.Percentile*0.01)
 		colPercentiles[col]=qsort.QSelectFloat32(colBuffer[:numSamples],int(k))
 	}
@@ -255,6 +262,7 @@ func (op *OpDebandVert) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 
 		// calculate local correction factor
 		factor:=medianOfColPercentiles / colPercentiles[col]
+		if colPercentiles[col]==0 { factor=1 } // cannot be corrected by multiplication
 		if factor<lowest { lowest = factor }
 		if factor>highest { highest = factor }
 
-- 
2.43.0


From f6a6a94e9da2bbcee422f7283fd743e01fc4d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 50/92] fix: report an error when debayering images smaller
 than the color filter pattern, instead of crashing

---
 internal/ops/pre/preprocess.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 7aeed07..1215101 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -239,10 +239,14 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
-	f.Data, f.Naxisn[0], err = DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
+	data, width, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
 	}
+	if len(data) == 0 {
+		return nil, fmt.Errorf("%d: %s image is too small for debayering", f.ID, f.DimensionsToString())
+	}
+	f.Data, f.Naxisn[0] = data, width
 	f.Pixels = int32(len(f.Data))
 	f.Naxisn[1] = f.Pixels / f.Naxisn[0]
 	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
-- 
2.43.0


From 9b4642b0ab2a6f6be1d3f6d12ea52e50a12c5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 51/92] fix: bin color images by channel, instead of dropping
 channels or crashing

---
 internal/fits/fits.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index 552e8f1..f6e4741 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -167,7 +167,8 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	binnedPixels:=int32(1)
 	binnedNaxisn:=make([]int32, len(src.Naxisn))
 	for i,originalN:=range(src.Naxisn) {
-		binnedN:=originalN/n
+		binnedN:=originalN
+		if i<2 { binnedN/=n } // bin pixels within each color channel
 		binnedNaxisn[i]=binnedN
 		binnedPixels*=binnedN
 	}
@@ -178,19 +179,22 @@ func NewImageBinNxN(src *Image, n int32) *Image {
 	// calculate binned image pixel values
 	// FIXME: pretty inefficient?
 	normalizer:=1.0/float32(n*n)
-	for y:=int32(0); y<binnedNaxisn[1]; y++ {
-		for x:=int32(0); x<binnedNaxisn[0]; x++ {
-			sum:=float32(0)
-			for yoff:=int32(0); yoff<n; yoff++ {
-				for xoff:=int32(0); xoff<n; xoff++ {
-					origPos:=(y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
-					sum+=src.Data[origPos]
+	origChannel, binnedChannel:=src.Naxisn[0]*src.Naxisn[1], binnedNaxisn[0]*binnedNaxisn[1]
+	for ch:=int32(0); ch<binnedPixels/binnedChannel; ch++ {
+		for y:=int32(0); y<binnedNaxisn[1]; y++ {
+			for x:=int32(0); x<binnedNaxisn[0]; x++ {
+				sum:=float32(0)
+				for yoff:=int32(0); yoff<n; yoff++ {
+					for xoff:=int32(0); xoff<n; xoff++ {
+						origPos:=ch*origChannel + (y*n+yoff)*src.Naxisn[0] + (x*n+xoff)
+						sum+=src.Data[origPos]
+					}
 				}
+				avg:=sum*normalizer
+				binnedPos:=ch*binnedChannel + y*binned.Naxisn[0] + x
+				binned.Data[binnedPos]=avg
 			}
-			avg:=sum*normalizer
-			binnedPos:=y*binned.Naxisn[0] + x
-			binned.Data[binnedPos]=avg
-		}		
+		}
 	}
 
 	return binned
-- 
2.43.0


From dcf19b18ec1308822e5bbed508859091b72cd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 52/92] fix: selecting from arrays with NaN pixels no longer
 crashes

---
 internal/qsort/qsort.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/qsort/qsort.go b/internal/qsort/qsort.go
index f7ecf09..172ea7c 100644
--- a/internal/qsort/qsort.go
+++ b/internal/qsort/qsort.go
@@ -22,7 +22,7 @@ import (
 )
 
 // Sort an array of float32 in ascending order.
-// Array must not contain IEEE NaN
+// The result is undefined if the array contains IEEE NaN
 func QSortFloat32(a []float32) {
     if len(a)>1 {
         index := QPartitionFloat32(a)
@@ -34,7 +34,7 @@ func QSortFloat32(a []float32) {
 
 // Partitions an array of float32 with the middle pivot element, and returns the pivot index.
 // Values less than the pivot are moved left of the pivot, those greater are moved right.
-// Array must not contain IEEE NaN
+// The result is undefined if the array contains IEEE NaN
 func QPartitionFloat32(a []float32) int {
     left, right:=0, len(a)-1
     mid   := (left+right)>>1
@@ -44,11 +44,11 @@ func QPartitionFloat32(a []float32) int {
     for {
         for {
             l++
-            if a[l]>=pivot { break }
+            if !(a[l]<pivot) { break } // also stop at NaN
         }
         for {
             r--
-            if a[r]<=pivot { break }
+            if !(a[r]>pivot) { break }
         }
         if l >= r { return r }
         a[l], a[r] = a[r], a[l]
@@ -57,14 +57,14 @@ func QPartitionFloat32(a []float32) int {
 
 
 // Select first quartile of an array of float32. Partially reorders the array.
-// Array must not contain IEEE NaN
+// The result is undefined if the array contains IEEE NaN
 func QSelectFirstQuartileFloat32(a []float32) float32 {
     return QSelectFloat32(a, (len(a)>>2)+1)
 }
 
 
 // Select median of an array of float32. Partially reorders the array.
-// Array must not contain IEEE NaN
+// The result is undefined if the array contains IEEE NaN
 func QSelectMedianFloat32(a []float32) float32 {
     // quick select the midpoint element
     k:=(len(a)>>1)+1
@@ -90,7 +90,7 @@ func QSelectMedianFloat32(a []float32) float32 {
 // }
 
 // Select kth lowest element from an array of float32. Partially reorders the array.
-// Array must not contain IEEE NaN
+// The result is undefined if the array contains IEEE NaN
 func QSelectFloat32(a []float32, k int) float32 {
     left, right:=0, len(a)-1
     for left<right {
@@ -102,12 +102,12 @@ func QSelectFloat32(a []float32, k int) float32 {
             for {
                 l++
                 // if l>=len(a) { CheckNaNs(a) }
-                if a[l]>=pivot { break }
+                if !(a[l]<pivot) { break } // also stop at NaN
             }
             for {
                 r--
                 // if r<0 { CheckNaNs(a) }
-                if a[r]<=pivot { break }
+                if !(a[r]>pivot) { break }
             }
             if l >= r { break } // index in r
             a[l], a[r] = a[r], a[l]
-- 
2.43.0


From 3a099bb68b95f016579b6a30cdce84c452cb0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 53/92] fix: background extraction with few, uniform, invalid
 or fully masked grid cells, which crashed or looped forever

---
 internal/ops/pre/background.go | 90 ++++++++++++++++++++++++++++------
 1 file changed, 74 insertions(+), 16 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 8d9a671..9ba48dd 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -70,7 +70,13 @@ func NewBackground(src []float32, width int32, gridSpacing int32, sigma float32,
 	height := int32(len(src) / int(width))
 
 	gridCellsX := (width + gridSpacing/2) / gridSpacing
+	if gridCellsX < 1 {
+		gridCellsX = 1
+	}
 	gridCellsY := (height + gridSpacing/2) / gridSpacing
+	if gridCellsY < 1 {
+		gridCellsY = 1
+	}
 	gridCells := gridCellsX * gridCellsY
 	gridSpacingX := float32(width) / float32(gridCellsX)
 	gridSpacingY := float32(height) / float32(gridCellsY)
@@ -169,16 +175,53 @@ func (b *Background) init(src []float32, sigma float32) {
 			b.Cells[c] = FitCell(src, b.Width, sigma, xStart, xEnd, yStart, yEnd, b.CellStars[c], b.HFRFactor, medBuffer, madBuffer)
 		}
 	}
+	b.interpolateMissing()
+}
+
+// Replaces missing cells marked with NaN by interpolations of their neighbors. If all cells are missing, they are set to zero
+func (b *Background) interpolateMissing() {
+	numMissing := 0
+	for _, cell := range b.Cells {
+		if math.IsNaN(float64(cell)) {
+			numMissing++
+		}
+	}
+	if numMissing == len(b.Cells) {
+		for i := range b.Cells {
+			b.Cells[i] = 0
+		}
+		return
+	}
+	for neighbors := 8; neighbors > 0; neighbors-- {
+		numChanged := 1
+		for numChanged > 0 {
+			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
+		}
+	}
 }
 
 // Clips the top n entries from the background gradient
 func (b *Background) clip(n int32, logWriter io.Writer) {
+	if n >= b.GridCells {
+		fmt.Fprintf(logWriter, "Warning: cannot clip %d of %d background cells, skipping\n", n, b.GridCells)
+		return
+	}
 	buffer := make([]float32, b.GridCells)
 	copy(buffer, b.Cells)
 	threshold := qsort.QSelectFloat32(buffer, len(buffer)-int(n)+1)
 	buffer = nil
 
 	ignoredCells := int32(0)
+	for _, cell := range b.Cells {
+		if cell >= threshold {
+			ignoredCells++
+		}
+	}
+	if ignoredCells >= b.GridCells {
+		return // all cells are the same, nothing left to interpolate from
+	}
+
+	ignoredCells = int32(0)
 	for i, cell := range b.Cells {
 		if cell >= threshold {
 			b.Cells[i] = float32(math.NaN())
@@ -191,13 +234,7 @@ func (b *Background) clip(n int32, logWriter io.Writer) {
 	b.OutlierCells = ignoredCells
 
 	// Then replace cells with interpolations
-	for neighbors := 8; neighbors >= 0; neighbors-- {
-		numChanged := 1
-		for numChanged > 0 {
-			numChanged = interpolate(b.Cells, b.GridCellsX, b.GridCellsY, neighbors)
-		}
-	}
-	buffer = nil
+	b.interpolateMissing()
 }
 
 func (b *Background) smoothe() {
@@ -354,6 +391,9 @@ func (b Background) Render() (dest []float32) {
 				xl--
 				xh--
 			}
+			if xl < 0 { // single cell
+				xl = 0
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -362,12 +402,15 @@ func (b Background) Render() (dest []float32) {
 				yl--
 				yh--
 			}
+			if yl < 0 { // single cell
+				yl = 0
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -433,6 +476,9 @@ func (b Background) Subtract(dest []float32) error {
 				xl--
 				xh--
 			}
+			if xl < 0 { // single cell
+				xl = 0
+			}
 			if yl < 0 {
 				yl++
 				yh++
@@ -441,12 +487,15 @@ func (b Background) Subtract(dest []float32) error {
 				yl--
 				yh--
 			}
+			if yl < 0 { // single cell
+				yl = 0
+			}
 			xr, yr := srcX-float32(xl), srcY-float32(yl)
 
 			xlyl := xl + yl*b.GridCellsX
-			xhyl := xlyl + 1            // xh+yl*origWidth
-			xlyh := xlyl + b.GridCellsX // xl+yh*origWidth
-			xhyh := xhyl + b.GridCellsX // xh+yh*origWidth
+			xhyl := xh + yl*b.GridCellsX
+			xlyh := xl + yh*b.GridCellsX
+			xhyh := xh + yh*b.GridCellsX
 
 			vyl := b.Cells[xlyl]*(1-xr) + b.Cells[xhyl]*xr
 			vyh := b.Cells[xlyh]*(1-xr) + b.Cells[xhyh]*xr
@@ -464,6 +513,9 @@ func (b Background) Subtract(dest []float32) error {
 func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yEnd int32, stars []star.Star, hfrFactor float32, medBuffer, madBuffer []float32) float32 {
 	// Gather grid cell contents without known stars
 	medBuffer = gatherWithoutStars(src, width, xStart, xEnd, yStart, yEnd, stars, hfrFactor, medBuffer)
+	if len(medBuffer) == 0 {
+		return float32(math.NaN()) // all pixels covered by stars or invalid
+	}
 
 	// Approximate the local background histogram peak location via median. Reorders the buffer
 	median := qsort.QSelectMedianFloat32(medBuffer)
@@ -480,11 +532,14 @@ func FitCell(src []float32, width int32, sigma float32, xStart, xEnd, yStart, yE
 	// Calculate trimmed median without upward outliers
 	numSamples := 0
 	for _, v := range medBuffer {
-		if v < upperBound {
+		if v <= upperBound {
 			medBuffer[numSamples] = v
 			numSamples++
 		}
 	}
+	if numSamples == 0 {
+		return median
+	}
 	medBuffer = medBuffer[:numSamples]
 	trimmedMedian := qsort.QSelectMedianFloat32(medBuffer)
 	return trimmedMedian
@@ -506,8 +561,11 @@ func gatherWithoutStars(src []float32, width int32, xStart, xEnd, yStart, yEnd i
 				}
 			}
 
-			offset := x + y*width
-			buffer[numSamples] = src[offset]
+			d := src[x+y*width]
+			if d-d != 0 {
+				continue // skip invalid pixels
+			}
+			buffer[numSamples] = d
 			numSamples++
 		}
 	}
-- 
2.43.0


From e39ad68f24b842701910c1cc54f0179af8620a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 54/92] fix: default statistics of images with one pixel or few
 distinct values no longer crash or hang

---
 internal/stats/stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index e07e901..5c2e22e 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -519,9 +519,15 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 // iteratively sigma clipped with a fast approximate Qn based on random sampling. Exits once the absolute change in
 // location and scale is below epsilon.
 func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float32, epsilon float32, numSamples int) (location, scale float32) {
+	if len(data) < 2 {
+		return data[0], 0 // no pairs to sample
+	}
 	samples := make([]float32, numSamples)
 	location = FastApproxMedian(data, samples) // sampling
 	scale = FastApproxQn(data, samples)        // sampling
+	if scale == 0 {
+		return location, scale // too few distinct values, there may be no values to sample within the bounds
+	}
 
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
-- 
2.43.0


From 183aec919f07311ebda6ad07c6a1a54d7e4a0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 55/92] fix: background extraction masks large stars in all
 grid cells they cover

---
 internal/ops/pre/background.go | 45 ++++++++++++++--------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/internal/ops/pre/background.go b/internal/ops/pre/background.go
index 9ba48dd..f56cd1f 100644
--- a/internal/ops/pre/background.go
+++ b/internal/ops/pre/background.go
@@ -115,39 +115,30 @@ func (b *Background) binStarsIntoCells(stars []star.Star) {
 	cs := b.CellStars
 	for _, s := range stars {
 		sx, sy, hfr := s.X, s.Y, s.HFR*b.HFRFactor
-		// Trace 3x3 grid centered around the star position
-		for yOff := -1; yOff < 2; yOff++ {
-			for xOff := -1; xOff < 2; xOff++ {
-				x := sx + float32(xOff)*hfr
-				y := sy + float32(yOff)*hfr
-
-				cellX := int32(x / b.GridSpacingX)
-				if cellX < 0 {
-					cellX = 0
-				}
-				if cellX >= b.GridCellsX {
-					cellX = b.GridCellsX - 1
-				}
-
-				cellY := int32(y / b.GridSpacingY)
-				if cellY < 0 {
-					cellY = 0
-				}
-				if cellY >= b.GridCellsY {
-					cellY = b.GridCellsY - 1
-				}
-
+		// Append to all cells within reach of the star
+		xStart, xEnd := cellRange(sx-hfr, sx+hfr, b.GridSpacingX, b.GridCellsX)
+		yStart, yEnd := cellRange(sy-hfr, sy+hfr, b.GridSpacingY, b.GridCellsY)
+		for cellY := yStart; cellY <= yEnd; cellY++ {
+			for cellX := xStart; cellX <= xEnd; cellX++ {
 				cellOffset := cellY*b.GridCellsX + cellX
-				c := cs[cellOffset]
-				l := len(c)
-				if l == 0 || c[l-1] != s {
-					cs[cellOffset] = append(c, s)
-				}
+				cs[cellOffset] = append(cs[cellOffset], s)
 			}
 		}
 	}
 }
 
+// Returns the first and last grid cell covering the given range of coordinates along one axis, limited to the valid cells
+func cellRange(low, high, gridSpacing float32, gridCells int32) (first, last int32) {
+	first, last = int32((low-0.5)/gridSpacing), int32((high+0.5)/gridSpacing)
+	if first < 0 {
+		first = 0
+	}
+	if last >= gridCells {
+		last = gridCells - 1
+	}
+	return first, last
+}
+
 // Initialize background by approximating each grid cell with a linear gradient
 func (b *Background) init(src []float32, sigma float32) {
 	bufSize := int32(b.GridSpacingX+1.5) * int32(b.GridSpacingY+1.5)
-- 
2.43.0


From 06bef18b252235740cd28a747507988bf89a9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 56/92] fix: 3x3 median filter of images narrower than eight
 pixels no longer corrupts memory

---
 internal/median/median3x3_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/median/median3x3_amd64.go b/internal/median/median3x3_amd64.go
index 5f9f3c1..21f74e7 100644
--- a/internal/median/median3x3_amd64.go
+++ b/internal/median/median3x3_amd64.go
@@ -25,7 +25,7 @@ import (
 // Applies 3x3 median filter to input data, assumed to be a 2D array with given line width, and stores results in output.
 // Copies over the outermost rows and columns unchanged.
 func MedianFilter3x3(output, data []float32, width int32) {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // shorter lines do not fit into vector registers
       medianFilter3x3AVX2(output, data, width)
     } else {
       medianFilter3x3PureGo(output, data,width)
-- 
2.43.0


From 632fe7c6f1993d30bcb488aaf7e12dc5416e495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 57/92] fix: noise estimation of images narrower than eight
 pixels includes unrelated memory

---
 internal/stats/noise_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/noise_amd64.go b/internal/stats/noise_amd64.go
index 226d55c..c657f11 100644
--- a/internal/stats/noise_amd64.go
+++ b/internal/stats/noise_amd64.go
@@ -25,7 +25,7 @@ import (
 // Estimate the level of gaussian noise on a natural image.
 // From J. Immerkær, “Fast Noise Variance Estimation”, Computer Vision and Image Understanding, Vol. 64, No. 2, pp. 300-302, Sep. 1996
 func EstimateNoise(data []float32, width int32) float32 {
-    if cpuid.CPU.AVX2() {
+    if cpuid.CPU.AVX2() && width>=8 { // shorter lines do not fit into vector registers
         return estimateNoiseAVX2(data, width)
     }
     return estimateNoisePureGo(data,width)
-- 
2.43.0


From 9a5901713c07ce988e2dedd7c016a8296e489549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 58/92] fix: sparse star fields are no longer misaligned by a
 few coinciding stars

---
 internal/star/align.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/star/align.go b/internal/star/align.go
index bf23702..65d9167 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -160,6 +160,7 @@ func (a *Aligner) closestTriangleMatches(triangles []Triangle) (matches []Match)
 func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []Star, id int) (trans Transform2D, residual float32) {
 	bestTrans:=Transform2D{}
 	bestResidualError:=float32(math.MaxFloat32)
+	bestNumMatches:=0
 	refTriangles, refStars:=a.RefTriangles, a.RefStars
 
 	distSquaredLimit:=float32(8.0*8.0)         // Distance limit to consider a star a match
@@ -211,6 +212,9 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 		if numMatches<len(stars)/3 { // abort if fewer than a third of the stars matched
 			continue;
 		}
+		if numMatches<bestNumMatches { // prefer transformations confirmed by more stars, as any three stars match perfectly
+			continue
+		}
 
         // Minimize the distance between projected stars and their reference counterparts 
         x0:=[]float64{float64(trans.A), float64(trans.B), float64(trans.C), float64(trans.D), float64(trans.E), float64(trans.F)}
@@ -244,11 +248,12 @@ func (a *Aligner) findBestMatch(matches []Match, triangles []Triangle, stars []S
 		trans=Transform2D{float32(x[0]), float32(x[1]), float32(x[2]), float32(x[3]), float32(x[4]), float32(x[5])}
 		residualError:=float32(result.F)
 		// Update best solution found, if applicable
-		if residualError<bestResidualError {
+		if residualError<bestResidualError || numMatches>bestNumMatches {
 			bestTrans=trans
 			bestResidualError=residualError
+			bestNumMatches=numMatches
 
-			if bestResidualError<earlyAbortForResidualError { 
+			if bestResidualError<earlyAbortForResidualError && numMatches>len(stars)*3/4 { 
 				return bestTrans, bestResidualError
 			}
 		}
-- 
2.43.0


From cd45dd91bbc17c04c79bbef376045d014b7436c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 59/92] fix: report an error when color balancing finds no dark
 block or unclipped star

---
 internal/fits/rgb.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index a4c5779..4b8b588 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -110,9 +110,11 @@ func (f *Image) SetBlackWhitePoints(block int32, border, skipBright, skipDim flo
 	statsG=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 1, 3)
 	statsB=stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 
-	darkest:= f.findDarkestBlock(block, border)
+	darkest, ok:= f.findDarkestBlock(block, border)
+	if !ok { return fmt.Errorf("no valid %dx%d block outside %.1f%% border for color balancing", block, block, 100*border) }
 	clip   := float32(0.9)
-	stars  := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	stars, ok := f.meanStarIntensity(skipBright, skipDim, RGB{statsR.Max()*clip, statsG.Max()*clip, statsB.Max()*clip})
+	if !ok { return fmt.Errorf("no star with unclipped colors for color balancing") }
 	fmt.Fprintf(logWriter, "Darkest block is %s and mean star color is %s\n", darkest, stars)
 
 	f.setBlackWhitePoints(darkest, stars, shadows, highlights, logWriter)
@@ -151,7 +153,7 @@ func (f *Image) setBlackWhitePoints(curShadows, curHighlights, targetShadows, ta
 
 
 // finds mean color of the darkest block in a given color image
-func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
+func (f *Image) findDarkestBlock(blockSize int32, border float32) (darkest RGB, ok bool) {
   width:=f.Naxisn[0]
   height:=f.Naxisn[1]
   channelSize:=width*height
@@ -216,17 +218,17 @@ func (f *Image) findDarkestBlock(blockSize int32, border float32) RGB {
      }
   }
 
-  return RGB{rMin, gMin, bMin}
+  return RGB{rMin, gMin, bMin}, lMin<math.MaxFloat32
 }
 
 
 // Returns mean color for the stars in the given RGB image
-func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
-	if len(f.Stars)==0 { return RGB{0, 0, 0} }
+func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) (mean RGB, ok bool) {
+	if len(f.Stars)==0 { return RGB{0, 0, 0}, false }
 
 	sStart:=             int(float32(len(f.Stars))*skipBright)
 	sEnd  :=len(f.Stars)-int(float32(len(f.Stars))*skipDim)
-	if sStart>=sEnd { return RGB{0, 0, 0} }
+	if sStart>=sEnd { return RGB{0, 0, 0}, false }
 
 	width:=f.Naxisn[0]
 	height:=f.Naxisn[1]
@@ -277,6 +279,7 @@ func (f *Image) meanStarIntensity(skipBright, skipDim float32, clip RGB) RGB {
 	}
 
 	// normalize and return totals
+	if totalPixels==0 { return RGB{0, 0, 0}, false }
 	norm:=1.0/float32(totalPixels)
-	return RGB{totalR*norm, totalG*norm, totalB*norm}
+	return RGB{totalR*norm, totalG*norm, totalB*norm}, true
 }
-- 
2.43.0


From 9287c23a28aa079443e3a123f72ac6cf06dc8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 60/92] fix: combining uniform color channels no longer yields
 invalid pixels

---
 internal/fits/rgb.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/fits/rgb.go b/internal/fits/rgb.go
index 4b8b588..7782d9d 100644
--- a/internal/fits/rgb.go
+++ b/internal/fits/rgb.go
@@ -73,6 +73,7 @@ func getCommonNormalizationFactors(chans []*Image) (min, mult float32) {
 			max=ch.Stats.Max()
 		}
 	}
+	if max==min { return min, 1 } // uniform channels, avoid dividing by zero
 	mult=1 / (max - min)
 	return min, mult
 }
-- 
2.43.0


From 3fbd8add92d0799cd05496c565e35788e038f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 61/92] fix: report an error when a reference file is given
 without star detection

---
 internal/ops/ref/refframe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 7909d1b..3eb840f 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -130,6 +130,10 @@ func (op *OpSelectReference) applySingle(i int, ins []ops.Promise, c *ops.Contex
 				return nil, c.RefFrameError
 			}
 
+			if op.StarDetect == nil { // set to null in JSON
+				c.RefFrameError = errors.New("missing star detection for the reference file")
+				return nil, c.RefFrameError
+			}
 			promises, c.RefFrameError = op.StarDetect.MakePromises([]ops.Promise{promises[0]}, c)
 			if c.RefFrameError != nil {
 				return nil, c.RefFrameError
-- 
2.43.0


From c2cdbe95f1986563340f93724cc04c071dfd5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 62/92] fix: do not leave the statistics file open when a batch
 fails or the file cannot be created

---
 internal/ops/ref/exportstats.go    | 1 +
 internal/ops/stack/stackbatches.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 5a8a621..3b820bc 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -121,6 +121,7 @@ func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Imag
 	if c.StatsFile == nil {
 		err = op.writeHeader(c)
 		if err != nil {
+			op.finishOne(c) // count the image, else a later retry never sees the last one
 			return nil, err
 		}
 	}
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index fefb6e4..14323c5 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -62,6 +62,13 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	c.MaxThreads = int(maxThreads)
 	c.StatsTotal = len(insPerm)
 	c.StatsProcessed = 0
+	defer func() {
+		if err != nil && c.StatsFile != nil { // the images of later batches will not complete the statistics
+			c.StatsBufWriter.Flush()
+			c.StatsFile.Close()
+			c.StatsFile, c.StatsBufWriter = nil, nil
+		}
+	}()
 
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
-- 
2.43.0


From 2bf7aa7a4a62472881a5a7c0d193a1e83b82e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 63/92] fix: find the nearest pixel of stars whose center lies
 left of or above the brightest pixel

---
 internal/star/findstars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index 4ba961c..d0c6d93 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -308,7 +308,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
-			index:=s.Index + width*int32(deltaY+0.5)+int32(deltaX+0.5)
+			index:=s.Index + width*int32(math.Floor(float64(deltaY)+0.5))+int32(math.Floor(float64(deltaX)+0.5))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
 				value=float32(data[index])
-- 
2.43.0


From e065032bf1cc2dec7a6e7cfd10d022ba84e4d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 64/92] fix: measure stars at the left and right border without
 pixels from the opposite border

---
 internal/star/findstars.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index d0c6d93..d359e15 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -286,6 +286,7 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 				for x:=-radius; x<=radius; x++ {
 					index:=s.Index+y*int32(width)+x
 					value:=float32(0)
+					if col:=s.Index%width+x; col<0 || col>=width { continue } // beyond the left or right border
 					if index>=0 && int(index)<len(data) {
 						value=data[index]-threshold
 						if !(value>=0 && value<=math.MaxFloat32) { value=0 } // also for invalid pixels
@@ -340,8 +341,9 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				distance:=float32(math.Sqrt(float64(distSq)))
 
 				index:=s.Index+y*width+x
+				col  :=s.Index%width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && col>=0 && col<width {
 					v:=data[index]-location
 					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
@@ -366,8 +368,9 @@ func calcAndFilterHalfFluxRadius(stars []Star, data []float32, width int32, radi
 				if distSq>distSqLimit { continue }
 
 				index:=s.Index+y*width+x
+				col  :=s.Index%width+x
 				value:=float32(0.0)
-				if index>=0 && index<int32(len(data)) {
+				if index>=0 && index<int32(len(data)) && col>=0 && col<width {
 					v:=data[index]-location
 					if v>0 && v<=math.MaxFloat32 { value=v }
 				}
-- 
2.43.0


From 37be61b1c9b2fe6cdad7d705833b245dffaca623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 65/92] fix: star images no longer show stars at one border on
 the opposite border as well

---
 internal/fits/fits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/fits/fits.go b/internal/fits/fits.go
index f6e4741..1e38106 100644
--- a/internal/fits/fits.go
+++ b/internal/fits/fits.go
@@ -207,8 +207,9 @@ func (f* Image) FillCircle(xc,yc,r,color float32) {
 		for x:=-r; x<=r; x+=0.5 {
 			distSq:=y*y+x*x
 			if distSq<=r*r+1e-6 {
-				index:=int32(xc+x) + int32(yc+y)*(f.Naxisn[0])
-				if index>=0 && index<int32(len(f.Data)) {
+				xi, yi:=int32(xc+x), int32(yc+y)
+				index:=xi + yi*(f.Naxisn[0])
+				if xi>=0 && xi<f.Naxisn[0] && index>=0 && index<int32(len(f.Data)) {
 					f.Data[index]=color
 				}
 			}
-- 
2.43.0


From 83a5d9aa9b3f851948c19160e2382b2d424f1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 66/92] fix: compute the statistics of color TIFF files from
 all channels

---
 internal/fits/tiff16.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index 642ab87..d478c7a 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -223,23 +223,22 @@ func (f *Image) ReadTIFF(fileName string) error {
 				f.Data[y*width+x+sizeThird] = g
 				f.Data[y*width+x+sizeTwoThirds] = b
 
-				// convert r, g, b to greyscale value
-				gray := 0.2126*r + 0.7152*g + 0.0722*b
-
 				// update stats
-				if gray < min {
-					min = gray
+				for _, v := range [3]float32{r, g, b} {
+					if v < min {
+						min = v
+					}
+					if v > max {
+						max = v
+					}
+					sum += float64(v)
 				}
-				if gray > max {
-					max = gray
-				}
-				sum += float64(gray)
 			}
 		}
 	}
 
 	// finalize stats
-	mean := float32(sum / float64(width) / float64(height))
+	mean := float32(sum / float64(f.Pixels))
 	f.Stats = stats.NewStatsWithMMM(f.Data, f.Naxisn[0], min, max, mean)
 
 	return nil
-- 
2.43.0


From b154c41fb512c39d3c555a6a5916a56f8510df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 67/92] fix: keep the dimensions of the alignment reference
 when a later step changes the frame's

---
 internal/ops/ref/refframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index 3eb840f..d4948e8 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -227,7 +227,7 @@ func materializeInOrder(ins []ops.Promise, maxThreads int) (outs []*fits.Image,
 
 func (op *OpSelectReference) assignResults(c *ops.Context, refFrame *fits.Image) {
 	if op.Target == SRAlign {
-		c.AlignNaxisn = refFrame.Naxisn
+		c.AlignNaxisn = append([]int32(nil), refFrame.Naxisn...) // later steps may change the frame's own
 		c.AlignStars = refFrame.Stars
 		c.AlignHFR = refFrame.HFR
 	} else if op.Target == SRHisto {
-- 
2.43.0


From 0703b4ab2394f90fce6e5684e2b2467d75fe8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 68/92] fix: refuse TIFF files without pixels

---
 internal/fits/tiff16.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/fits/tiff16.go b/internal/fits/tiff16.go
index d478c7a..d0a0903 100644
--- a/internal/fits/tiff16.go
+++ b/internal/fits/tiff16.go
@@ -169,6 +169,9 @@ func (f *Image) ReadTIFF(fileName string) error {
 
 	// determine width, height, color depth and number of color channels
 	width, height := t.Bounds().Dx(), t.Bounds().Dy()
+	if width < 1 || height < 1 {
+		return fmt.Errorf("%d: invalid TIFF dimensions %dx%d in %s", f.ID, width, height, fileName)
+	}
 	bitpix, channels := colorModelToBitpixAndChannels(t.ColorModel())
 	if channels == 0 {
 		return fmt.Errorf("%d: unsupported TIFF color model in %s", f.ID, fileName)
-- 
2.43.0


From 610e27be1898f51b7a7f5e0d48b5bd4b512f65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 69/92] fix: leave images alone whose location is white when
 moving the black point

---
 internal/fits/pixelops.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/fits/pixelops.go b/internal/fits/pixelops.go
index 4d6677a..b89fac7 100644
--- a/internal/fits/pixelops.go
+++ b/internal/fits/pixelops.go
@@ -647,6 +647,7 @@ func (f* Image) ScaleRGB(r, g, b float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMove(before, after float32) {
+	if before==1 { return } // no black point moves white
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
@@ -661,6 +662,7 @@ func (f* Image) ShiftBlackToMove(before, after float32) {
 
 // Shift black point so a defined before value becomes the given after value. Operates in-place on image data normalized to [0,1]. 
 func (f* Image) ShiftBlackToMoveChannel(chanID int, before, after float32) {
+	if before==1 { return } // no black point moves white
     // Plug after and before into the transformation formula:
     //   after = (before - black) / (1 - black)
     // Then solving for black yields the following
-- 
2.43.0


From 84fbd4bc3daa765783b442438a60787a69d32cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 70/92] fix: do not take the command word for a filename
 pattern

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index d04d5fe..2f4bc1a 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -277,7 +277,7 @@ Flags:
 
 	// glob filename arguments into an opLoadMany operator
 	var err error
-	opLoadMany := ops.NewOpLoadMany(args)
+	opLoadMany := ops.NewOpLoadMany(args[1:]) // the first argument is the command
 
 	// parse preprocessing flags into preprocessing sequence operator
 	opDebayer := pre.NewOpDebayer(*debayer, *cfa)
-- 
2.43.0


From 9016d399870d0e6398f9f1063a0b2d508481ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 71/92] fix: exit with an error status on an unknown command

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index 2f4bc1a..b654c6d 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -416,7 +416,7 @@ Flags:
 	default:
 		fmt.Fprintf(logWriter, "Unknown command '%s'\n\n", args[0])
 		flag.Usage()
-		return
+		os.Exit(-1)
 	}
 
 	if err != nil {
-- 
2.43.0


From c9c660949f9ed82cb3bdd49bd57a96c735b0f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 72/92] fix: respect the -lsEst flag when running a job file

---
 cmd/nightlight/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/nightlight/main.go b/cmd/nightlight/main.go
index b654c6d..ffeb634 100644
--- a/cmd/nightlight/main.go
+++ b/cmd/nightlight/main.go
@@ -227,7 +227,7 @@ Flags:
 		flag.Usage()
 		return
 	}
-	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" {
+	if args[0] == "stats" || args[0] == "stack" || args[0] == "stretch" || args[0] == "rgb" || args[0] == "lrgb" || args[0] == "run" {
 		fmt.Fprintf(logWriter, "Using location and scale estimator %d\n", *lsEst)
 		stats.LSEstimator = stats.LSEstimatorMode(*lsEst)
 	}
-- 
2.43.0


From 3e338cd0d11b7a21460b1a1d378b155a67f74ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 73/92] fix: end the scale estimation when hardly any value is
 within the clipping bounds

---
 internal/stats/stats.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 5c2e22e..c4974ae 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -515,6 +515,20 @@ func FastApproxBoundedQn(data []float32, lowBound, highBound float32, samples []
 	return qn
 }
 
+// Returns true if so few values are within the bounds that sampling among them takes very long, or never ends
+func fewWithin(data []float32, lowBound, highBound float32) bool {
+	need := 2 + len(data)/50
+	for _, d := range data {
+		if d >= lowBound && d <= highBound {
+			need--
+			if need == 0 {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // Returns a rapid robust estimation of location and scale. Uses a fast approximate median based on randomized sampling,
 // iteratively sigma clipped with a fast approximate Qn based on random sampling. Exits once the absolute change in
 // location and scale is below epsilon.
@@ -532,6 +546,10 @@ func FastApproxSigmaClippedMedianAndQn(data []float32, sigmaLow, sigmaHigh float
 	for i := 0; ; i++ {
 		lowBound := location - sigmaLow*scale
 		highBound := location + sigmaLow*scale
+		if fewWithin(data, lowBound, highBound) {
+			scale = FastApproxQn(data, samples) // sampling
+			return location, scale
+		}
 
 		newLocation := FastApproxBoundedMedian(data, lowBound, highBound, samples) // sampling
 		newScale := FastApproxBoundedQn(data, lowBound, highBound, samples)        // sampling
-- 
2.43.0


From 63e968af87c4ad8d5b66adc093d5657c99de875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 74/92] fix: show the steps of a job posted to the server

---
 internal/rest/serve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 0228cd5..c67707a 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -112,7 +112,7 @@ func postJob(c *gin.Context) {
 		logWriter.WriteHeader(http.StatusOK)
 
 		// play back arguments for debugging
-		if err := printOp(logWriter, "Arguments:\n", "\n", op); err != nil {
+		if err := printOp(logWriter, "Arguments:\n", "\n", &op); err != nil {
 			fmt.Fprintf(logWriter, "Error printing arguments: %s\n", err.Error())
 			return
 		}
-- 
2.43.0


From eecc16a4aa1328169d8e3d31e17ea2f8073fea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 75/92] fix: write the warning about deviating dimensions to
 the log

---
 internal/ops/pre/preprocess.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 1215101..599c954 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -77,7 +77,7 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
 					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
 			}
-			fmt.Printf("%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar",
+			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar\n",
 					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
 		}
 		Subtract(f.Data, f.Data, c.DarkFrame.Data)
@@ -90,7 +90,7 @@ func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image,
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
 					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
 			}
-			fmt.Printf("%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar",
+			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar\n",
 					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
 		}
 		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
-- 
2.43.0


From e597f0d13b2196408cb8a69238d2ddb502d367b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 76/92] fix: write each message about the stretching in one
 piece

---
 internal/ops/hsl/hsl.go         | 16 ++++++++--------
 internal/ops/stretch/stretch.go | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 79a78da..2e26fdc 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -595,17 +595,17 @@ func (op *OpHSLScaleBlack) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Imag
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	loc, scale := st.Location(), st.Scale()
-	fmt.Fprintf(c.Log, "Location %.2f%% and scale %.2f%%: ", loc*100, scale*100)
+	state := fmt.Sprintf("%d: Location %.2f%% and scale %.2f%%", f.ID, loc*100, scale*100) // log in one piece
 	//	_,_,hclTargetBlack:=colorful.Xyy(0,0,float64(op.Location)).Hcl()
 	//	targetBlack:=float32(hclTargetBlack)
 	_, _, hslUVTargetBlack := colorful.LinearRgb(float64(op.Location), float64(op.Location), float64(op.Location)).HSLuv()
 	targetBlack := float32(hslUVTargetBlack)
 
 	if loc > targetBlack {
-		fmt.Fprintf(c.Log, "scaling black to move location to HSLuv %.2f%% for linear %.2f%%...\n", targetBlack*100.0, op.Location*100.0)
+		fmt.Fprintf(c.Log, "%s: scaling black to move location to HSLuv %.2f%% for linear %.2f%%...\n", state, targetBlack*100.0, op.Location*100.0)
 		f.ShiftBlackToMoveChannel(2, loc, targetBlack)
 	} else {
-		fmt.Fprintf(c.Log, "cannot move to location %.2f%% by scaling black\n", targetBlack*100.0)
+		fmt.Fprintf(c.Log, "%s: cannot move to location %.2f%% by scaling black\n", state, targetBlack*100.0)
 	}
 	return f, nil
 }
@@ -657,7 +657,7 @@ func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *f
 		st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 		loc, scale := st.Location(), st.Scale()
 
-		fmt.Fprintf(c.Log, "%d: Linear location %.2f%% and scale %.2f%%, ", f.ID, loc*100, scale*100)
+		state:=fmt.Sprintf("%d: Linear location %.2f%% and scale %.2f%%", f.ID, loc*100, scale*100) // log in one piece
 
 		if loc<=op.Location*1.01 && scale<op.Scale {
 			idealGamma:=float32(1)
@@ -685,18 +685,18 @@ func (op *OpHSLStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *f
 			}
 
 			if idealGamma<=1.01 { 
-				fmt.Fprintf(c.Log, "done\n")
+				fmt.Fprintf(c.Log, "%s, done\n", state)
 				break
 			}
 
-			fmt.Fprintf(c.Log, "applying gamma %.3g\n", idealGamma)
+			fmt.Fprintf(c.Log, "%s, applying gamma %.3g\n", state, idealGamma)
 			f.ApplyGammaToChannel(2, idealGamma)
 			//f.ApplyPartialGamma(0, 0.95, idealGamma)
 		} else if loc>op.Location*0.99 && scale<op.Scale {
-			fmt.Fprintf(c.Log, "scaling black to move location to %.2f%%...\n", op.Location*100)
+			fmt.Fprintf(c.Log, "%s, scaling black to move location to %.2f%%...\n", state, op.Location*100)
 			f.ShiftBlackToMoveChannel(2, loc, op.Location)
 		} else {
-			fmt.Fprintf(c.Log, "done\n")
+			fmt.Fprintf(c.Log, "%s, done\n", state)
 			break
 		}
 	}
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index a8965ae..1985fce 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -112,7 +112,7 @@ func (op *OpStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits
 
 		loc, scale:=f.Stats.Location(), f.Stats.Scale()
 
-		fmt.Fprintf(c.Log, "%d: Linear location %.2f%% and scale %.2f%%, ", f.ID, loc*100, scale*100)
+		state:=fmt.Sprintf("%d: Linear location %.2f%% and scale %.2f%%", f.ID, loc*100, scale*100) // log in one piece
 
 		if loc<=op.Location*1.01 && scale<op.Scale {
 			idealGamma:=float32(1)
@@ -140,18 +140,18 @@ func (op *OpStretchIterative) Apply(f *fits.Image, c *ops.Context) (result *fits
 			}
 
 			if idealGamma<=1.01 { 
-				fmt.Fprintf(c.Log, "done\n")
+				fmt.Fprintf(c.Log, "%s, done\n", state)
 				break
 			}
 
-			fmt.Fprintf(c.Log, "applying gamma %.3g\n", idealGamma)
+			fmt.Fprintf(c.Log, "%s, applying gamma %.3g\n", state, idealGamma)
 			f.ApplyGamma(idealGamma)
 			//f.ApplyPartialGamma(0, 0.95, idealGamma)
 		} else if loc>op.Location*0.99 && scale<op.Scale {
-			fmt.Fprintf(c.Log, "scaling black to move location to %.2f%%...\n", op.Location*100)
+			fmt.Fprintf(c.Log, "%s, scaling black to move location to %.2f%%...\n", state, op.Location*100)
 			f.ShiftBlackToMove(loc, op.Location)
 		} else {
-			fmt.Fprintf(c.Log, "done\n")
+			fmt.Fprintf(c.Log, "%s, done\n", state)
 			break
 		}
 	}
@@ -323,13 +323,13 @@ func (op *OpScaleBlack) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 	if op.Location==0 { return f, nil }
 
 	loc, scale:=f.Stats.Location(), f.Stats.Scale()
-	fmt.Fprintf(c.Log, "%d: Location %.2f%% and scale %.2f%%: ", f.ID, loc*100, scale*100)
+	state:=fmt.Sprintf("%d: Location %.2f%% and scale %.2f%%", f.ID, loc*100, scale*100) // log in one piece
 
 	if loc>op.Location {
-		fmt.Fprintf(c.Log, "scaling black to move location to %.2f%%...\n", op.Location*100.0)
+		fmt.Fprintf(c.Log, "%s: scaling black to move location to %.2f%%...\n", state, op.Location*100.0)
 		f.ShiftBlackToMove(loc, op.Location)
 	} else {
-		fmt.Fprintf(c.Log, "cannot move to location %.2f%% by scaling black\n", op.Location*100.0)
+		fmt.Fprintf(c.Log, "%s: cannot move to location %.2f%% by scaling black\n", state, op.Location*100.0)
 	}
 	return f, nil
 }
-- 
2.43.0


From 75e45018d9146fd1136f3c86dc75e28b220eaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 77/92] fix: change to the root of the new file system when
 confining the server

---
 internal/rest/sandbox_unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rest/sandbox_unix.go b/internal/rest/sandbox_unix.go
index ac72f50..dffc3a9 100644
--- a/internal/rest/sandbox_unix.go
+++ b/internal/rest/sandbox_unix.go
@@ -34,7 +34,7 @@ func MakeSandbox(chroot string, setuid int) {
 		if err:=syscall.Chroot(chroot); err!=nil {
 			panic(fmt.Sprintf("error chroot(%s): %s\n", chroot, err.Error()))
 		}
-		if err:=os.Chdir(chroot); err!=nil {
+		if err:=os.Chdir("/"); err!=nil {  // the new root
 			panic(fmt.Sprintf("error chdir(%s): %s\n", chroot, err.Error()))
 		}
 	}
-- 
2.43.0


From 8a1e2fc3db94962495d54bcd0b3ded78e8b70e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 78/92] fix: end with an error when the port cannot be served

---
 internal/rest/serve.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index c67707a..5c3d6c8 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -58,7 +58,10 @@ func Serve(port, theStMemory int) {
 			v1.StaticFS("/files", http.Dir("."))
 		}
 	}
-	r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	err := r.Run(fmt.Sprintf(":%d", port)) // listen and serve on 0.0.0.0:port
+	if err != nil {
+		panic(fmt.Sprintf("error serving on port %d: %s\n", port, err.Error()))
+	}
 }
 
 func CORSMiddleware() gin.HandlerFunc {
-- 
2.43.0


From ab9ae96c6be770d1dfbe42369d04a99ce5795766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 79/92] fix: let each calibration step apply its own dark and
 flat frames, once

---
 internal/ops/operator.go           |  2 +
 internal/ops/pre/preprocess.go     | 80 +++++++++++++++---------------
 internal/ops/stack/stackbatches.go |  2 +-
 3 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 31b25a1..b675774 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -44,6 +44,8 @@ type Context struct {
 	MaxThreads      int `json:"maxThreads"`
 	DarkFrame       *fits.Image
 	FlatFrame       *fits.Image
+	CalFrames       map[string]*fits.Image // dark and flat frames by file name
+	CalFramesMutex  sync.Mutex
 	AlignNaxisn     []int32
 	AlignStars      []star.Star
 	AlignHFR        float32
diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 599c954..781e8c7 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -19,7 +19,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
@@ -31,7 +30,6 @@ type OpCalibrate struct {
 	ops.OpUnaryBase
 	Dark  string     `json:"dark"`
 	Flat  string     `json:"flat"`
-	mutex sync.Mutex `json:"-"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpCalibrateDefaults() }) } // register the operator for JSON decoding
@@ -60,87 +58,91 @@ func (op *OpCalibrate) UnmarshalJSON(data []byte) error {
 	op.OpUnaryBase = def.OpUnaryBase
 	op.Dark = def.Dark
 	op.Flat = def.Flat
-	op.mutex = sync.Mutex{}
 
 	op.OpUnaryBase.Apply = op.Apply // make method receiver point to op, not def
 	return nil
 }
 
 func (op *OpCalibrate) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
-	if err = op.init(c); err != nil {
+	dark, flat, err := op.init(c) // lazy init of dark and flat frames
+	if err != nil {
 		return nil, err
-	} // lazy init of dark and flat frames
+	}
 
-	if c.DarkFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.DarkFrame.Naxisn) {
-			if f.Pixels!=c.DarkFrame.Pixels {
+	if dark != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, dark.Naxisn) {
+			if f.Pixels!=dark.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from dark dimensions %v",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 			}
 			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from dark dimensions %v but same product, ignoring for Seestar\n",
-					f.ID, f.Naxisn, c.DarkFrame.Naxisn)
+					f.ID, f.Naxisn, dark.Naxisn)
 		}
-		Subtract(f.Data, f.Data, c.DarkFrame.Data)
+		Subtract(f.Data, f.Data, dark.Data)
 		f.Stats.Clear()
 	}
 
-	if c.FlatFrame != nil {
-		if !fits.EqualInt32Slice(f.Naxisn, c.FlatFrame.Naxisn) {
-			if f.Pixels!=c.FlatFrame.Pixels {
+	if flat != nil {
+		if !fits.EqualInt32Slice(f.Naxisn, flat.Naxisn) {
+			if f.Pixels!=flat.Pixels {
 				return nil, fmt.Errorf("%d: Light dimensions %v differ from flat dimensions %v",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 			}
 			fmt.Fprintf(c.Log, "%d: Warning: light dimensions %v differ from flat dimensions %v but same product, ignoring for Seestar\n",
-					f.ID, f.Naxisn, c.FlatFrame.Naxisn)
+					f.ID, f.Naxisn, flat.Naxisn)
 		}
-		Divide(f.Data, f.Data, c.FlatFrame.Data, c.FlatFrame.Stats.Max())
+		Divide(f.Data, f.Data, flat.Data, flat.Stats.Max())
 		f.Stats.Clear()
 	}
 	return f, nil
 }
 
-// Load dark and flat frames if applicable
-func (op *OpCalibrate) init(c *ops.Context) error {
-	op.mutex.Lock()
-	defer op.mutex.Unlock()
-	if !((op.Dark != "" && c.DarkFrame == nil) ||
-		(op.Flat != "" && c.FlatFrame == nil)) {
-		return nil
-	}
+// Load the dark and flat frames of this operator, unless another one did so before
+func (op *OpCalibrate) init(c *ops.Context) (dark, flat *fits.Image, err error) {
+	c.CalFramesMutex.Lock()
+	defer c.CalFramesMutex.Unlock()
 
+	var names []string
 	var promises []ops.Promise
 	for i, name := range []string{op.Dark, op.Flat} {
-		if name != "" {
+		if name != "" && c.CalFrames[name] == nil {
 			promise, err := ops.NewOpLoad(-(i+1), name).MakePromises(nil, c)
 			if err != nil {
-				return err
+				return nil, nil, err
 			}
 			if len(promise) != 1 {
-				return errors.New("load operator did not create exactly one promise")
+				return nil, nil, errors.New("load operator did not create exactly one promise")
 			}
+			names = append(names, name)
 			promises = append(promises, promise[0])
 		}
 	}
 
 	images, err := ops.MaterializeAll(promises, c.MaxThreads, false)
 	if err != nil {
-		return err
+		return nil, nil, err
+	}
+	for i, name := range names {
+		if c.CalFrames == nil {
+			c.CalFrames = map[string]*fits.Image{}
+		}
+		c.CalFrames[name] = images[i]
 	}
 
 	if op.Dark != "" {
-		c.DarkFrame = images[0]
-		if op.Flat != "" {
-			c.FlatFrame = images[1]
-		}
-	} else if op.Flat != "" {
-		c.FlatFrame = images[0]
+		dark = c.CalFrames[op.Dark]
+		c.DarkFrame = dark
+	}
+	if op.Flat != "" {
+		flat = c.CalFrames[op.Flat]
+		c.FlatFrame = flat
 	}
 
-	if c.DarkFrame != nil && c.FlatFrame != nil && !fits.EqualInt32Slice(c.DarkFrame.Naxisn, c.FlatFrame.Naxisn) {
-		return fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
-			c.DarkFrame.Naxisn, c.FlatFrame.Naxisn)
+	if dark != nil && flat != nil && !fits.EqualInt32Slice(dark.Naxisn, flat.Naxisn) {
+		return nil, nil, fmt.Errorf("dark dimensions %v differ from flat dimensions %v",
+			dark.Naxisn, flat.Naxisn)
 	}
-	return nil
+	return dark, flat, nil
 }
 
 type OpBadPixel struct {
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 14323c5..4768bb5 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -121,7 +121,7 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 	}
 
 	// Free more memory; primary frames already freed after stacking
-	c.DarkFrame, c.FlatFrame = nil, nil
+	c.DarkFrame, c.FlatFrame, c.CalFrames = nil, nil, nil
 	debug.FreeOSMemory()
 
 	if numBatches > 1 {
-- 
2.43.0


From 4dac32f24cb0bf8d4ced104823fc931dd50f9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 80/92] fix: count the images of each statistics file on its
 own, wherever it is exported

---
 internal/ops/operator.go           |  66 +++++++++++++++-
 internal/ops/ref/exportstats.go    | 118 ++++++++++++++---------------
 internal/ops/stack/stackbatches.go |   9 +--
 3 files changed, 121 insertions(+), 72 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index b675774..63352c2 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -53,10 +53,68 @@ type Context struct {
 	RefFrameError   error
 	LumFrame        *fits.Image
 
-	StatsTotal     int
-	StatsProcessed int
-	StatsFile      *os.File      `json:"-"` // the output file being written to. do not use directly
-	StatsBufWriter *bufio.Writer `json:"-"` // buffered writer for the output file. use this
+	StatsExports []*StatsExport `json:"-"` // the statistics files being written to
+	StatsBatches bool           `json:"-"` // if more images may follow until all batches are processed
+	StatsMutex   sync.Mutex     `json:"-"`
+}
+
+// A statistics file being written to
+type StatsExport struct {
+	FileName  string
+	Pending   int           // number of images yet to come
+	File      *os.File      // the output file being written to. do not use directly
+	BufWriter *bufio.Writer // buffered writer for the output file. use this
+	Finish    func() error  // writes the footer and closes the file
+}
+
+// Adds the given number of images to come to the statistics file of given name
+func (c *Context) ExpectStats(fileName string, num int) *StatsExport {
+	c.StatsMutex.Lock()
+	defer c.StatsMutex.Unlock()
+	for _, e := range c.StatsExports {
+		if e.FileName == fileName {
+			e.Pending += num
+			return e
+		}
+	}
+	e := &StatsExport{FileName: fileName, Pending: num}
+	c.StatsExports = append(c.StatsExports, e)
+	return e
+}
+
+// Finishes all statistics files which expect no more images. Requires the lock
+func (c *Context) FinishStats() (err error) {
+	var open []*StatsExport
+	for _, e := range c.StatsExports {
+		if e.Pending > 0 {
+			open = append(open, e)
+		} else if e.File != nil {
+			if e := e.Finish(); e != nil && err == nil {
+				err = e
+			}
+		}
+	}
+	c.StatsExports = open
+	return err
+}
+
+// Ends the processing of batches. If it was successful, finishes the statistics files
+// which expect no more images, else closes all of them
+func (c *Context) EndStatsBatches(success bool) error {
+	c.StatsMutex.Lock()
+	defer c.StatsMutex.Unlock()
+	c.StatsBatches = false
+	if success {
+		return c.FinishStats()
+	}
+	for _, e := range c.StatsExports {
+		if e.File != nil {
+			e.BufWriter.Flush()
+			e.File.Close()
+		}
+	}
+	c.StatsExports = nil
+	return nil
 }
 
 func NewContext(log io.Writer, stMemory int, lsEstimatorMode stats.LSEstimatorMode) *Context {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 3b820bc..101e4af 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -20,7 +20,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
-	"sync"
 
 	"github.com/mlnoga/nightlight/internal/fits"
 	"github.com/mlnoga/nightlight/internal/ops"
@@ -29,9 +28,6 @@ import (
 type OpExportStats struct {
 	ops.OpUnaryBase
 	FileName     string        `json:"fileName"`
-	mutex        sync.Mutex    `json:"-"`
-	materialized []*fits.Image `json:"-"`
-	opError      error         `json:"-"`
 }
 
 func init() { ops.SetOperatorFactory(func() ops.Operator { return NewOpExportStatsDefault() }) } // register the operator for JSON decoding
@@ -65,104 +61,102 @@ func (op *OpExportStats) MakePromises(ins []ops.Promise, c *ops.Context) (outs [
 	if len(ins) == 0 {
 		return nil, fmt.Errorf("%s operator with %d inputs", op.Type, len(ins))
 	}
-	if c.StatsTotal == 0 { // unless batching has set the total across all batches
-		c.StatsTotal = len(ins)
+	if op.FileName == "" {
+		return op.OpUnaryBase.MakePromises(ins, c)
 	}
+	e := c.ExpectStats(op.FileName, len(ins))
 	outs = make([]ops.Promise, len(ins))
 	for i, in := range ins {
-		theIn := in
+		theIn, counted := in, false
 		outs[i] = func() (f *fits.Image, err error) {
-			if f, err = theIn(); err != nil {
-				op.skip(c)
-				return nil, err
+			f, err = theIn()
+
+			c.StatsMutex.Lock()         // lock so a single thread is active
+			defer c.StatsMutex.Unlock() // always release lock on exit
+			if counted {                // batching looks at the first image in advance
+				return f, err
 			}
-			if f == nil { // skip images rejected by a prior step
-				return nil, op.skip(c)
+			counted = true
+			if serr := op.export(e, f, c); err == nil {
+				err = serr
 			}
-			return op.Apply(f, c)
+			if err != nil {
+				return nil, err
+			}
+			return f, nil
 		}
 	}
 	return outs, nil
 }
 
-// Counts an input without statistics
-func (op *OpExportStats) skip(c *ops.Context) error {
-	if op.FileName == "" {
-		return nil
-	}
-	op.mutex.Lock()
-	defer op.mutex.Unlock()
-	return op.finishOne(c)
-}
-
-// Counts a finished input. Writes the footer if it was the last
-func (op *OpExportStats) finishOne(c *ops.Context) error {
-	c.StatsProcessed++
-	if c.StatsProcessed < c.StatsTotal {
-		return nil
-	}
-	c.StatsTotal, c.StatsProcessed = 0, 0
-	if c.StatsFile == nil {
-		return nil
-	}
-	return op.writeFooter(c)
-}
-
 func (op *OpExportStats) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.FileName == "" {
 		fmt.Fprintf(c.Log, "%d: exportStats empty fileName\n", f.ID)
 		return f, nil
 	}
+	e := c.ExpectStats(op.FileName, 1)
 
-	op.mutex.Lock()         // lock so a single thread is active
-	defer op.mutex.Unlock() // always release lock on exit
+	c.StatsMutex.Lock()         // lock so a single thread is active
+	defer c.StatsMutex.Unlock() // always release lock on exit
+	if err = op.export(e, f, c); err != nil {
+		return nil, err
+	}
+	return f, nil
+}
 
-	// write stats
-	if c.StatsFile == nil {
-		err = op.writeHeader(c)
-		if err != nil {
-			op.finishOne(c) // count the image, else a later retry never sees the last one
-			return nil, err
+// Counts an image, and writes its statistics unless it failed or was rejected by a prior step.
+// Writes the footer if it was the last. Requires the lock
+func (op *OpExportStats) export(e *ops.StatsExport, f *fits.Image, c *ops.Context) (err error) {
+	if f != nil {
+		if e.File == nil {
+			err = op.writeHeader(e, c)
+		}
+		if err == nil {
+			op.writeStats(f, e, c)
 		}
 	}
-	op.writeStats(f, c)
-	if err = op.finishOne(c); err != nil {
-		return nil, err
+	e.Pending--
+	if !c.StatsBatches {
+		if ferr := c.FinishStats(); err == nil {
+			err = ferr
+		}
 	}
-	return f, nil
+	return err
 }
 
-func (op *OpExportStats) writeHeader(c *ops.Context) (err error) {
+func (op *OpExportStats) writeHeader(e *ops.StatsExport, c *ops.Context) (err error) {
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
-	c.StatsFile, err = os.Create(op.FileName)
+	e.File, err = os.Create(op.FileName)
 	if err != nil {
+		e.File = nil
 		return fmt.Errorf("error creating file %s: %s", op.FileName, err.Error())
 	}
-	c.StatsBufWriter = bufio.NewWriter(c.StatsFile)
+	e.BufWriter = bufio.NewWriter(e.File)
+	e.Finish = func() error { return op.writeFooter(e, c) }
 
-	c.StatsBufWriter.WriteString(sessionStatsHeader)
-	fmt.Fprintf(c.StatsBufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
+	e.BufWriter.WriteString(sessionStatsHeader)
+	fmt.Fprintf(e.BufWriter, "[  ['ID','Min','Mean','Max','Location','Scale','Stars','HFR']\n")
 
 	return nil
 }
 
-func (op *OpExportStats) writeStats(f *fits.Image, c *ops.Context) {
+func (op *OpExportStats) writeStats(f *fits.Image, e *ops.StatsExport, c *ops.Context) {
 	fmt.Fprintf(c.Log, "%d: writing statistics to file %s ...\n", f.ID, op.FileName)
 	s := f.Stats
-	fmt.Fprintf(c.StatsBufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
+	fmt.Fprintf(e.BufWriter, "  ,[%d,%f,%f,%f,%f,%f,%d,%f]\n",
 		f.ID, s.Min(), s.Mean(), s.Max(), s.Location(), s.Scale(), len(f.Stars), f.HFR)
 }
 
-func (op *OpExportStats) writeFooter(c *ops.Context) error {
+func (op *OpExportStats) writeFooter(e *ops.StatsExport, c *ops.Context) error {
 	fmt.Fprintf(c.Log, "Writing statistics footer to file %s ...\n", op.FileName)
-	fmt.Fprintf(c.StatsBufWriter, "]")
-	c.StatsBufWriter.WriteString(sessionStatsTrailer)
-	err := c.StatsBufWriter.Flush() // also reports errors of prior buffered writes
-	c.StatsBufWriter = nil
-	if cerr := c.StatsFile.Close(); err == nil {
+	fmt.Fprintf(e.BufWriter, "]")
+	e.BufWriter.WriteString(sessionStatsTrailer)
+	err := e.BufWriter.Flush() // also reports errors of prior buffered writes
+	e.BufWriter = nil
+	if cerr := e.File.Close(); err == nil {
 		err = cerr
 	}
-	c.StatsFile = nil
+	e.File = nil
 	if err != nil {
 		return fmt.Errorf("error writing file %s: %s", op.FileName, err.Error())
 	}
diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 4768bb5..4882957 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -60,13 +60,10 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		return nil, err
 	}
 	c.MaxThreads = int(maxThreads)
-	c.StatsTotal = len(insPerm)
-	c.StatsProcessed = 0
+	c.StatsBatches = true
 	defer func() {
-		if err != nil && c.StatsFile != nil { // the images of later batches will not complete the statistics
-			c.StatsBufWriter.Flush()
-			c.StatsFile.Close()
-			c.StatsFile, c.StatsBufWriter = nil, nil
+		if serr := c.EndStatsBatches(err == nil); serr != nil {
+			fOut, err = nil, serr
 		}
 	}()
 
-- 
2.43.0


From 3a9a52a77bd843f665655471d4f1b23e9a9f9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 81/92] fix: refuse an unknown reference target

---
 internal/ops/ref/refframe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/ref/refframe.go b/internal/ops/ref/refframe.go
index d4948e8..011cdca 100644
--- a/internal/ops/ref/refframe.go
+++ b/internal/ops/ref/refframe.go
@@ -84,6 +84,9 @@ func (op *OpSelectReference) MakePromises(ins []ops.Promise, c *ops.Context) (ou
 	if len(ins) == 0 {
 		return nil, errors.New(fmt.Sprintf("%s operator needs inputs", op.Type))
 	}
+	if op.Target != SRAlign && op.Target != SRHisto {
+		return nil, fmt.Errorf("invalid reference selection target %d", op.Target)
+	}
 
 	op.materialized, op.taken = nil, nil // drop state from any prior batch
 	outs = make([]ops.Promise, len(ins))
-- 
2.43.0


From 05d1450108a4f154f8bd466ed7fc7dab4cc95daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 82/92] fix: refuse a negative or huge sigma for blurring and
 unsharp masking

---
 internal/ops/hsl/hsl.go         | 3 +++
 internal/ops/stretch/stretch.go | 2 ++
 internal/ops/stretch/usm.go     | 9 +++++++++
 3 files changed, 14 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 2e26fdc..2ec09d5 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -539,6 +539,9 @@ func (op *OpHSLUnsharpMask) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Ima
 	if op.Gain == 0.0 {
 		return f, nil
 	}
+	if err := stretch.CheckSigma(op.Sigma); err != nil {
+		return nil, err
+	}
 
 	st := stats.NewStatsForChannel(f.Data, f.Naxisn[0], 2, 3)
 	absThresh := st.Location() + st.Scale()*op.Threshold
diff --git a/internal/ops/stretch/stretch.go b/internal/ops/stretch/stretch.go
index 1985fce..f193c06 100644
--- a/internal/ops/stretch/stretch.go
+++ b/internal/ops/stretch/stretch.go
@@ -367,6 +367,7 @@ func (op *OpGaussianBlur) UnmarshalJSON(data []byte) error {
 
 func (op *OpGaussianBlur) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Sigma==0 { return f, nil }
+	if err:=CheckSigma(op.Sigma); err!=nil { return nil, err }
 
 	kernel:=GaussianKernel1D(op.Sigma)
 	fmt.Fprintf(c.Log, "%d: Gaussian blur kernel sigma %.2f size %d: %v\n", 
@@ -413,6 +414,7 @@ func (op *OpUnsharpMask) UnmarshalJSON(data []byte) error {
 
 func (op *OpUnsharpMask) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, err error) {
 	if op.Sigma==0 || op.Gain==0 { return f, nil }
+	if err:=CheckSigma(op.Sigma); err!=nil { return nil, err }
 
 	absThresh:=f.Stats.Location() + f.Stats.Scale()*op.Threshold
 	fmt.Fprintf(c.Log, "%d: Unsharp masking with sigma %.3g gain %.3g thresh %.3g absThresh %.3g\n", 
diff --git a/internal/ops/stretch/usm.go b/internal/ops/stretch/usm.go
index 27992ea..7df5bf8 100644
--- a/internal/ops/stretch/usm.go
+++ b/internal/ops/stretch/usm.go
@@ -16,6 +16,7 @@
 package stretch
 
 import (
+	"fmt"
 	"math"
 )
 
@@ -38,6 +39,14 @@ func GaussianDefiniteIntegral(mu, sigma, x float32) float32 {
 	return 0.5 * (1 + float32(math.Erf(float64((x-mu)/(sqrt2*sigma)))))
 }
 
+// Checks that there is a gaussian kernel of reasonable size for the given sigma
+func CheckSigma(sigma float32) error {
+	if !(sigma >= 0 && sigma <= 10000) {
+		return fmt.Errorf("invalid sigma %g, must be within [0,10000]", sigma)
+	}
+	return nil
+}
+
 // Generates a 1D gaussian kernel for the given sigma. Based on symbolic integration via error function
 func GaussianKernel1D(sigma float32) (kernel []float32) {
 	mu := float32(0)
-- 
2.43.0


From ddde09d5c64d62c8dd309a18747ac50d43faedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 83/92] fix: refuse an unknown channel in hslScaleOffsetChannel

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 2ec09d5..ecf5365 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -113,6 +113,9 @@ func (op *OpHSLScaleOffsetChannel) Apply(f *fits.Image, c *ops.Context) (fOut *f
 	if op.Scale == 1 && op.Offset == 0 {
 		return f, nil
 	}
+	if op.ChannelID < 0 || op.ChannelID > 2 {
+		return nil, fmt.Errorf("%d: invalid channel %d", f.ID, op.ChannelID)
+	}
 	fmt.Fprintf(c.Log, "%d: Applying pixel math x = x * %.3f + %.3f%% to channel %d\n", f.ID, op.Scale, op.Offset*100, op.ChannelID)
 	f.ApplyScaleOffsetToChannel(op.ChannelID, op.Scale, op.Offset)
 	return f, nil
-- 
2.43.0


From b8940bd2a19d606073b6799c1fafb11ec0959390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 84/92] fix: refuse invalid settings and images without color
 in rgbBalance

---
 internal/ops/rgb/rgb.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index 042c65e..7f25768 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -138,6 +138,13 @@ func (op *OpRGBBalance) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 
 	fmt.Fprintf(c.Log, "Balancing darkest %dx%d block outside %.1f%% border to color tint %s and stars skipping brightest %.1f%% and dimmest %.1f%% to %s\n",
 		op.Block, op.Block, 100*op.Border, op.Shadows, 100*op.SkipBright, 100*op.SkipDim, op.Highlights)
+	if len(f.Naxisn) != 3 || f.Naxisn[2] != 3 {
+		return nil, fmt.Errorf("%d: cannot balance colors of a %s image", f.ID, f.DimensionsToString())
+	}
+	if op.Block < 1 || !(op.Border >= 0 && op.Border <= 1) ||
+		!(op.SkipBright >= 0 && op.SkipBright <= 1) || !(op.SkipDim >= 0 && op.SkipDim <= 1) {
+		return nil, fmt.Errorf("%d: invalid settings for color balancing", f.ID)
+	}
 	err = f.SetBlackWhitePoints(op.Block, op.Border, op.SkipBright, op.SkipDim, op.Shadows, op.Highlights, c.Log)
 	return f, err
 }
-- 
2.43.0


From 1cd90abfc229300d49636b817d95c34fea723681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 85/92] fix: refuse to debayer images with several planes

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index 781e8c7..ac623eb 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -241,6 +241,9 @@ func (op *OpDebayer) Apply(f *fits.Image, c *ops.Context) (result *fits.Image, e
 	if op.Channel == "" || op.ColorFilterArray == "" {
 		return f, nil
 	}
+	if len(f.Naxisn) < 2 || len(f.Data) != int(f.Naxisn[0])*int(f.Naxisn[1]) {
+		return nil, fmt.Errorf("%d: cannot debayer a %s image", f.ID, f.DimensionsToString())
+	}
 	data, width, err := DebayerBilinear(f.Data, f.Naxisn[0], op.Channel, op.ColorFilterArray)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ab6a3b1d96476385e418e80b4021e502bf3a5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 86/92] fix: refuse a negative or huge star radius

---
 internal/ops/pre/preprocess.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/pre/preprocess.go b/internal/ops/pre/preprocess.go
index ac623eb..34110f3 100644
--- a/internal/ops/pre/preprocess.go
+++ b/internal/ops/pre/preprocess.go
@@ -461,6 +461,9 @@ func (op *OpStarDetect) Apply(f *fits.Image, c *ops.Context) (result *fits.Image
 	if op.Radius == 0 || op.Sigma == 0 {
 		return f, nil
 	}
+	if op.Radius < 0 || op.Radius > 1000 {
+		return nil, fmt.Errorf("%d: invalid star radius %d, must be within [0,1000]", f.ID, op.Radius)
+	}
 	if f.Stats == nil {
 		return nil, errors.New("missing stats")
 	}
-- 
2.43.0


From 0805066e423366db2b0c14a973396cb49d360e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 87/92] fix: try no more alignment stars than there are

---
 internal/star/align.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/star/align.go b/internal/star/align.go
index 65d9167..bd53cf6 100644
--- a/internal/star/align.go
+++ b/internal/star/align.go
@@ -84,6 +84,7 @@ func (a *Aligner) Align(naxisn []int32, stars []Star, id int) (trans Transform2D
 
 // Selects the k brightest stars, skipping those closer than limit to an already selected star. Returns indices into stars
 func pickBrightestDistant(stars []Star, minLength float32, k int32) (indices []int) {
+	if int(k)>len(stars) { k=int32(len(stars)) }
 	indices=make([]int, k)
 	i:=0
 	s:=0
-- 
2.43.0


From 5a05ff153ece018f413915fbb9f16bf480938c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 88/92] fix: stop the search for a star's center when huge
 values overflow

---
 internal/star/findstars.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/star/findstars.go b/internal/star/findstars.go
index d359e15..9ef8bed 100644
--- a/internal/star/findstars.go
+++ b/internal/star/findstars.go
@@ -309,6 +309,10 @@ func shiftToCenterOfMass(stars []Star, data []float32, width int32, threshold fl
 			preciseDeltaX:=newX-s.X
 			preciseDeltaY:=newY-s.Y
 			shiftSquared  =preciseDeltaX*preciseDeltaX + preciseDeltaY*preciseDeltaY
+			if !(shiftSquared<=math.MaxFloat32) { // pixel values too large for their center of mass
+				shiftSquared=0
+				break
+			}
 			index:=s.Index + width*int32(math.Floor(float64(deltaY)+0.5))+int32(math.Floor(float64(deltaX)+0.5))
 			value:=float32(0)
 			if index>=0 && int(index)<len(data) {
-- 
2.43.0


From 36db8a5654d97d5e1e698ff8cc1e9d77a9886646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 89/92] fix: close the statistics files when no batches can be
 formed

---
 internal/ops/stack/stackbatches.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/ops/stack/stackbatches.go b/internal/ops/stack/stackbatches.go
index 4882957..7e5bf95 100644
--- a/internal/ops/stack/stackbatches.go
+++ b/internal/ops/stack/stackbatches.go
@@ -54,12 +54,6 @@ func (op *OpStackBatches) MakePromises(ins []ops.Promise, c *ops.Context) (outs
 }
 
 func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.Image, err error) {
-	// Partition the loaders into optimal batches
-	insPerm, numBatches, batchSize, maxThreads, err := op.partition(ins, c)
-	if err != nil {
-		return nil, err
-	}
-	c.MaxThreads = int(maxThreads)
 	c.StatsBatches = true
 	defer func() {
 		if serr := c.EndStatsBatches(err == nil); serr != nil {
@@ -67,6 +61,13 @@ func (op *OpStackBatches) Apply(ins []ops.Promise, c *ops.Context) (fOut *fits.I
 		}
 	}()
 
+	// Partition the loaders into optimal batches
+	insPerm, numBatches, batchSize, maxThreads, err := op.partition(ins, c)
+	if err != nil {
+		return nil, err
+	}
+	c.MaxThreads = int(maxThreads)
+
 	// Process each batch. The first batch sets the reference image
 	stack := (*fits.Image)(nil)
 	stackFrames := int64(0)
-- 
2.43.0


From aaddb171eb13b3433697e9769b0ec2bcb405482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 90/92] fix: apply a luminance image once, and to a matching
 image only

---
 internal/ops/hsl/hsl.go  | 15 ++++++++++-----
 internal/ops/operator.go |  1 +
 internal/ops/rgb/rgb.go  |  2 ++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index ecf5365..5085690 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -57,16 +57,21 @@ func (op *OpHSLApplyLum) UnmarshalJSON(data []byte) error {
 }
 
 func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image, err error) {
-	if c.LumFrame == nil {
+	c.LumMutex.Lock()
+	lum := c.LumFrame
+	c.LumFrame = nil // free memory; and use the luminance once only
+	c.LumMutex.Unlock()
+	if lum == nil {
 		return f, nil
 	}
+	if len(f.Data) != 3*len(lum.Data) {
+		return nil, fmt.Errorf("%d: cannot apply luminance image with dimensions %v to image with dimensions %v", f.ID, lum.Naxisn, f.Naxisn)
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
-	c.LumFrame.MonoToHSLuvLum()
+	lum.MonoToHSLuvLum()
 
 	fmt.Fprintf(c.Log, "Applying luminance image to luminance channel...\n")
-	f.ApplyLuminanceToCIExyY(c.LumFrame)
-
-	c.LumFrame = nil // free memory
+	f.ApplyLuminanceToCIExyY(lum)
 	return f, nil
 }
 
diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 63352c2..0246764 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -52,6 +52,7 @@ type Context struct {
 	MatchHisto      *stats.Stats
 	RefFrameError   error
 	LumFrame        *fits.Image
+	LumMutex        sync.Mutex `json:"-"`
 
 	StatsExports []*StatsExport `json:"-"` // the statistics files being written to
 	StatsBatches bool           `json:"-"` // if more images may follow until all batches are processed
diff --git a/internal/ops/rgb/rgb.go b/internal/ops/rgb/rgb.go
index 7f25768..3643219 100644
--- a/internal/ops/rgb/rgb.go
+++ b/internal/ops/rgb/rgb.go
@@ -80,7 +80,9 @@ func (op *OpRGBCombine) Apply(fs []*fits.Image, c *ops.Context) (fOut *fits.Imag
 		}
 	}
 	if len(fs) == 4 {
+		c.LumMutex.Lock()
 		c.LumFrame = fs[3]
+		c.LumMutex.Unlock()
 	}
 	fmt.Fprintf(c.Log, "\nCombining RGB color channels...\n")
 	fOut = fits.NewRGBFromChannels(fs[:3], c.AlignStars, c.AlignHFR, c.Log)
-- 
2.43.0


From fec1bb0cdedfbfe5329536bdfb4ab9470cb2f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 91/92] fix: let jobs sent to the server write inside its
 directory only

---
 internal/ops/operator.go        | 14 ++++++++++++--
 internal/ops/ref/exportstats.go |  3 +++
 internal/rest/serve.go          |  1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/ops/operator.go b/internal/ops/operator.go
index 0246764..1887088 100644
--- a/internal/ops/operator.go
+++ b/internal/ops/operator.go
@@ -57,6 +57,16 @@ type Context struct {
 	StatsExports []*StatsExport `json:"-"` // the statistics files being written to
 	StatsBatches bool           `json:"-"` // if more images may follow until all batches are processed
 	StatsMutex   sync.Mutex     `json:"-"`
+
+	Confined bool // if files may only be written inside the current directory tree, as for jobs sent to the server
+}
+
+// Returns an error if the file of given name must not be written to
+func (c *Context) CheckWrite(fileName string) error {
+	if c.Confined && !isPathAllowed(fileName) {
+		return fmt.Errorf("filename %s outside current directory tree, aborting", fileName)
+	}
+	return nil
 }
 
 // A statistics file being written to
@@ -484,8 +494,8 @@ func (op *OpSave) Apply(f *fits.Image, c *Context) (result *fits.Image, err erro
 	})
 	fnLower := strings.ToLower(fileName)
 
-	if err != nil {
-		return nil, err
+	if err = c.CheckWrite(fileName); err != nil {
+		return nil, fmt.Errorf("%d: %s", f.ID, err.Error())
 	}
 	var min, max float32
 	switch op.ExportMode {
diff --git a/internal/ops/ref/exportstats.go b/internal/ops/ref/exportstats.go
index 101e4af..27f5404 100644
--- a/internal/ops/ref/exportstats.go
+++ b/internal/ops/ref/exportstats.go
@@ -125,6 +125,9 @@ func (op *OpExportStats) export(e *ops.StatsExport, f *fits.Image, c *ops.Contex
 }
 
 func (op *OpExportStats) writeHeader(e *ops.StatsExport, c *ops.Context) (err error) {
+	if err = c.CheckWrite(op.FileName); err != nil {
+		return err
+	}
 	fmt.Fprintf(c.Log, "Writing statistics header to file %s ...\n", op.FileName)
 	e.File, err = os.Create(op.FileName)
 	if err != nil {
diff --git a/internal/rest/serve.go b/internal/rest/serve.go
index 5c3d6c8..7ae825e 100755
--- a/internal/rest/serve.go
+++ b/internal/rest/serve.go
@@ -122,6 +122,7 @@ func postJob(c *gin.Context) {
 
 		// create promises for the given command sequence
 		oc := ops.NewContext(logWriter, stMemory, stats.LSESCMedianQn)
+		oc.Confined = true
 		promises, err := op.MakePromises(nil, oc)
 		if err != nil {
 			fmt.Fprintf(logWriter, "Error making promises: %s\n", err.Error())
-- 
2.43.0


From 38661c0ad069da18fad234a1504cc782008767eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 92/92] fix: bring the luminance image to the range its
 conversion expects

---
 internal/ops/hsl/hsl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ops/hsl/hsl.go b/internal/ops/hsl/hsl.go
index 5085690..34b705f 100644
--- a/internal/ops/hsl/hsl.go
+++ b/internal/ops/hsl/hsl.go
@@ -67,6 +67,9 @@ func (op *OpHSLApplyLum) Apply(f *fits.Image, c *ops.Context) (fOut *fits.Image,
 	if len(f.Data) != 3*len(lum.Data) {
 		return nil, fmt.Errorf("%d: cannot apply luminance image with dimensions %v to image with dimensions %v", f.ID, lum.Naxisn, f.Naxisn)
 	}
+	if lum.Stats != nil && lum.Stats.Min() < lum.Stats.Max() { // bring luminance to [0,1], like the color channels
+		lum.Normalize()
+	}
 	fmt.Fprintf(c.Log, "Converting mono luminance image to HSLuv as well...\n")
 	lum.MonoToHSLuvLum()
 
-- 
2.43.0

