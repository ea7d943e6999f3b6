#!/usr/bin/env python3
"""Writes known-findings.json: the fix: commits of /repo with the property each belongs to.
Run by hand after a fix (never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property, start of the commit subject after "fix: "
M = '''P09 read image data in full buffers
P09 keep header integers beyond 32 bits
P09 read header numbers in all FITS exponent
P09 offset of the third color channel
P20 read 8-bit and alpha TIFF
P09 verify the checksum
P20 refuse FITS headers
P11 truncate existing FITS
P10 report errors from flushing
P10 report errors when saving TIFF
P09 keep image statistics from reading past
P13 expand the image id
P07 pass over rejected frames
P03 report an error when stacking no frames
P07 skip frames instead of crashing
P03 keep values and weights paired
P03 use equal weights when all frames
P03 do not output NaN for pixels
P04 plan enough batches
P04 report an error instead of crashing when rejected
P04 weigh batches by
P06 keep frames in order
P06 select the alignment reference only once
P22 keep the histogram reference
P24 pass on log writes
P13 write the extracted background
P08 write the footer
P18 fade background colors
P25 keep cached statistics right
P03 keep the HFR of aligned
P25 estimate the noise of aligned
P23 report an error when aligning without
P05 report an error when binning
P12 write string header keywords once
P10 fill the last block
P12 read back header strings
P25 update statistics after debayer
P21 report an error when color channels
P17 keep the color filter settings
P03 slope of the linear regression
P03 fill pixels without valid data
P06 report an error instead of crashing when no frames are left
P03 report an error for HFR weights
P20 end the IKSS
P20 statistics and star detection of files'''.split('\n')
X = os.path.join(V, 'tools', 'fixes_more.txt')
if os.path.exists(X):
    M += [l for l in open(X).read().split('\n') if l]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h\t%s'], text=True).strip().split('\n')
out = []
for l in reversed(log):
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    m = [x for x in M if s[5:].startswith(x[4:])]
    assert len(m) == 1, (s, m)
    p = m[0][:3]
    out.append(dict(property=p, status='fixed', id=h, what='fixed: property=%s %s %s' % (p, h, s[5:])))
k = os.path.join(V, 'tools', 'known.json')
if os.path.exists(k):
    out += json.load(open(k))
json.dump(out, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
print(len(out), 'entries')
