"""Rewrites the "fixed" entries of known-findings.json from the fix: commits of /repo."""
import json, subprocess
# property that found it, by start of the commit subject
M = '''read and write every byte|P22 the file size|P01 buffer splits|P22 1 and 4 bit scan lines|P03 bit reversal|P22 point list|P01 copied rectangles carry|P10 pasting on|P10 crop keeps|P10
horizontal flips and mirrors|P08 vertical region flips|P08 color matching takes|P21 filled rectangles of 8|P05 exact diagonal|P04 ellipse boundary|P31 circular region boundary|P31
horizontal spans entirely|P07 a one pixel wide|P04 ellipse outlines|P06 a filled arc too|P06 vertical lines entirely|P07 pixel based flips|P08 circular filters|P09
circular region copies|P09 color filter factors|P15 pixelized circles|P09 copied rectangles of any|P10 iterimageRGB|P13 neighbors in|P13 a palette made|P14 erasing every|P17
erasing lines of|P17 outlining a region|P17 horizontal brightness|P16 vertical brightness|P16 packing bits|P11 gradient rotated|P16 crop by|P10 save a color|P18 sphere2file|P18
autocropimg2file|P18 brightness gradients of a circle|P16 upside down|P19 sideways italics|P19 sideways text takes|P19 number every vertex|P22 print the bottom|P19 X11 color names|P21
webgray|P21 zero pad|P22 the name of the middle|P22 red is bit 0|P21 last term|P23 vectors are|P23 polar,|P23 distance table|P23 regular polygons|P24 the inner circle|P24
circle involute|P24 the rolling|P24 egg curve|P24 bezier|P24 plotmulti|P26 symmetricicon|P25 iterIFS|P25 8 bit fractals|P26 spherevert|P28 spheres show|P29 tetrahedra and hexahedra show|P28
tetrahedra, hexahedra and|P28 decahed|P28 icosahed|P28 surfplot|P28 piechart|P30 XYscatterplot: points|P30 XYscatterplot: a falling|P30 XYscatterplot: falling|P30 arcvert|P06 pixelizenxncircregion: blocks|P09'''
import re
pairs = re.findall(r'([^|]+)\|(P\d\d)\s*', M.replace('\n', ' '))
L = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '8a472d6..HEAD'], text=True).splitlines()
p = '/verif/known-findings.json'
d = json.load(open(p))
d['findings'] = [f for f in d['findings'] if f['status'] != 'fixed']
used = {}
for l in L:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    m = [q for k, q in pairs if s.startswith(k)]
    assert len(m) == 1, (s, m)
    n = used[m[0]] = used.get(m[0], 0) + 1
    d['findings'].append({'id': f'{m[0]}-fixed-{n}', 'property': m[0], 'status': 'fixed', 'commit': h, 'what': f'fixed: property={m[0]} {h} {s}'})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(L), sum(f['status'] == 'fixed' for f in d['findings']))
