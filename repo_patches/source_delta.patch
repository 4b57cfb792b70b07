From dd17b9fd08f5e747848f0a079a8eab5b74b9f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 01/79] fix: read and write every byte of an integer field
 (last byte was dropped)

---
 pythonbmp/inttools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/inttools.py b/pythonbmp/inttools.py
index 8450315..2f1a74c 100644
--- a/pythonbmp/inttools.py
+++ b/pythonbmp/inttools.py
@@ -36,8 +36,7 @@ def writeint(offset: int, cnt: int,
     Returns:
         byref unsigned byte array
     """
-    j = cnt - 1
-    for i in range(j):
+    for i in range(cnt):
         arr[offset + i] = value & 0xff
         value = value >> 8
 
@@ -59,8 +58,7 @@ def readint(offset: int, cnt: int,
     Returns:
         unsigned int value
     """
-    j = cnt - 1
-    return sum(arr[offset + i] << (i << 3) for i in range(j))
+    return sum(arr[offset + i] << (i << 3) for i in range(cnt))
 
 
 def int2buf(cnt: int, value: int
@@ -88,5 +86,4 @@ def buf2int(buf: array) -> int:
     Returns:
         unsigned int value
     """
-    j = len(buf) - 1
-    return sum(buf[i] << (i << 3) for i in range(j))
+    return sum(buf[i] << (i << 3) for i in range(len(buf)))
-- 
2.43.0


From e9fd2643def350fafd232e830d54fa8143d73486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 02/79] fix: the file size field is 4 bytes, do not swallow the
 reserved field

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 658581c..03b52da 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -547,7 +547,7 @@ def _setflsz(bmp: array, size: int):
         byref modified unsigned byte array
         with new file size
     """
-    writeint(bmpfilesize, 8, bmp, size)
+    writeint(bmpfilesize, 4, bmp, size)
 
 
 def _flsz(bmp: array) -> int:
@@ -562,7 +562,7 @@ def _flsz(bmp: array) -> int:
         unsigned int value of size
         of the bmp header
     """
-    return readint(bmpfilesize, 8, bmp)
+    return readint(bmpfilesize, 4, bmp)
 
 
 def _sethdsz(bmp: array, hdsize: int):
@@ -1457,7 +1457,7 @@ def loadBMP(filename: str) -> array:
         if hd != b'BM':
             print(sysmsg['notBMP'])
         else:
-            fsize = char2int(f.read(8))
+            fsize = char2int(f.read(4))
             if fsize > 54:
                 f.seek(0)
                 a.frombytes(f.read(fsize))
-- 
2.43.0


From c878fe419e215ca8dd428d51d0b80a5c2108f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 03/79] fix: buffer splits keep the last item of odd sized
 buffers

---
 pythonbmp/buffersplit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pythonbmp/buffersplit.py b/pythonbmp/buffersplit.py
index 874ca8e..8595c3f 100644
--- a/pythonbmp/buffersplit.py
+++ b/pythonbmp/buffersplit.py
@@ -48,8 +48,6 @@ def altsplitbuf3way(buf: list[any]
          [blue list]]
     """
     m = len(buf)
-    if m % 3 == 0:
-        m -= m & 1
     return [buf[:m - 2:3], buf[1: m - 1: 3], buf[2: m: 3]]
 
 
@@ -71,8 +69,6 @@ def altsplitbufnway(buf: list[any],
     retval = []
     m = len(buf)
     j = n - 1
-    if m % n == 0:
-        m -= m & 1
     for i in range(n):
         retval += [buf[i: m - j: n]]
         j -= 1
-- 
2.43.0


From fe2ba2d5fa0939cd1ac99892eba06791d2333cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 04/79] fix: 1 and 4 bit scan lines keep every pixel, any width
 or start column

---
 pythonbmp/BITMAPlib.py | 25 +++++++++++++++++++------
 pythonbmp/bufresize.py |  4 ++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 03b52da..39c952d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2298,10 +2298,23 @@ def itercopyrect(bmp: array,
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     offset = _BMoffset(bmp, x1, y2)
-    lim = _BMoffset(bmp, x2, y1) + r
-    while (offset + bufsize) <= lim:
-        yield BMPbitBLTget(bmp,
-               offset, bufsize)
+    bits = bmp[bmpcolorbits]
+    # bits before x1 in its byte
+    sh = (x1 * bits) & 7
+    if sh > 0:
+        n = ((x2 + 1) * bits - 1 >> 3) - \
+            (x1 * bits >> 3) + 1
+    for _ in range(y2 - y1 + 1):
+        if sh > 0:
+            buf = BMPbitBLTget(bmp, offset, n)
+            buf.append(0)
+            yield array('B',
+                [(buf[i] << sh | buf[i + 1] >>
+                 8 - sh) & 0xff
+                 for i in range(bufsize)])
+        else:
+            yield BMPbitBLTget(bmp,
+                   offset, bufsize)
         offset += r
 
 
@@ -7546,7 +7559,7 @@ def upgradeto24bitimage(bmp: array):
                         0, 0, mx, my):
             BMPbitBLTput(nbmp, offset,
                 convertbufto24bit(buf,
-                    bgrpal, bits))
+                    bgrpal, bits)[:(mx + 1) * 3])
             offset += r
     return nbmp
 
@@ -8891,7 +8904,7 @@ def resizeNtimesbigger(
     r = _xchrcnt(nbmp)
     for buf in itercopyrect(bmp, 0, 0,
                         mx, my):
-        nbuf = resizebufNtimesbigger(buf, n, bits)
+        nbuf = resizebufNtimesbigger(buf, n, bits)[:r]
         for _ in range(n):
             BMPbitBLTput(nbmp, offset, nbuf)
             offset += r
diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 9866df0..22eb359 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -45,11 +45,11 @@ def adjustbufsize(
         buffer size
     """
     if bits == 1:
-        bufsize >>= 3
+        bufsize = (bufsize + 7) >> 3
     elif bits == 24:
         bufsize *= 3
     elif bits == 4:
-        bufsize >>= 1
+        bufsize = (bufsize + 1) >> 1
     return bufsize
 
 
-- 
2.43.0


From 16145f64f9f8d9776a4a78e291d62fc0601953ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 05/79] fix: bit reversal of pixel bytes keeps bit 0

---
 pythonbmp/bufferflip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/bufferflip.py b/pythonbmp/bufferflip.py
index bbc4ea9..3b8b59a 100644
--- a/pythonbmp/bufferflip.py
+++ b/pythonbmp/bufferflip.py
@@ -30,7 +30,8 @@ def rotatebitsinbuf(
     Returns:
         unsigned byte array
     """
-    return array('B', [rotatebits(b)
+    return array('B', [rotatebits(b) |
+                       (b & 1) << 7
                        for b in buf])
 
 
-- 
2.43.0


From 3c4b4224012ca851f84109d54b09d9ed0f8e976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 06/79] fix: point list bound checks report points out of
 bounds

---
 pythonbmp/BITMAPlib.py    | 2 +-
 pythonbmp/primitives2D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 39c952d..f363915 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -499,7 +499,7 @@ def listinBMPrecbnd(bmp: array,
     for (x, y) in xylist:
         if isinBMPrectbnd(
             bmp, x, y) == False:
-            break
+            return False
     return True
 
 
diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5df504a..4025e6a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -818,7 +818,7 @@ def listinrecbnd(
                        xmin, ymin,
                        xmax, ymax) == \
             False:
-            break
+            return False
     return True
 
 
-- 
2.43.0


From d9ee764f2158a0f6bc1a745ff89668ad7576ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 07/79] fix: copied rectangles carry their own size, paste and
 convert keep it

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f363915..2307cf4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7720,8 +7720,8 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1 + 2)
-    retval += int2buf(2, y2 - y1 + 1)
+    retval += int2buf(2, x2 - x1)
+    retval += int2buf(2, y2 - y1)
     retval += int2buf(2,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
-- 
2.43.0


From 26fd66fb039c37b1b123a888901dc54169b95a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 08/79] fix: pasting on 1 and 4 bit images is pixel exact

---
 pythonbmp/BITMAPlib.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 2307cf4..8f4d0fb 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7758,6 +7758,10 @@ def pasterect(bmp: array, buf: array,
             startoff = 7
             endoff = br + 7
             bufsize = len(buf)
+            if buf[0] < 8:
+                _pastepixels(bmp, buf, x1, y1,
+                                       x2, y2)
+                startoff = bufsize
             while startoff < bufsize:
                 BMPbitBLTput(bmp,
                     offset,
@@ -7769,6 +7773,39 @@ def pasterect(bmp: array, buf: array,
             print(sysmsg['regionoutofbounds'])
 
 
+def _pastepixels(bmp: array, buf: array,
+        x1: int, y1: int,
+        x2: int, y2: int):
+    """Paste a copied area pixel by pixel
+        (pixels of 1 and 4 bit images
+        share bytes with their neighbors)
+
+    Args:
+        bmp           : unsigned
+                        byte array
+                        with bmp format
+        buf           : rectangular
+                        image buffer
+        x1, y1, x2, y2: area to
+                        paste on
+
+    Returns:
+        byref modified unsigned byte array
+    """
+    bits = buf[0]
+    br = buf2int(buf[5: 7])
+    mask = (1 << bits) - 1
+    startoff = 7
+    for y in range(y2, y1 - 1, -1):
+        i = 0
+        for x in range(x1, x2 + 1):
+            plotxybit(bmp, x, y,
+                buf[startoff + (i >> 3)] >>
+                (8 - bits - (i & 7)) & mask)
+            i += bits
+        startoff += br
+
+
 def convertselection2BMP(buf: array):
     """Converts custom unsigned byte array to bmp format
 
-- 
2.43.0


From 72332a0f10d030b4100c78dda2bae81b1bac8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 09/79] fix: crop keeps the palette of 8 bit images

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8f4d0fb..6ae8973 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8801,6 +8801,8 @@ def crop(bmp: array, x1: int, y1: int,
             intplotvecxypoint(nbmp,
                 subvect(v[0], (x1, y1)), v[1])
     else:
+        if bits == 8:
+            copyRGBpal(bmp, nbmp)
         offset = 0
         r = _xchrcnt(nbmp)
         for buf in itercopyrect(
-- 
2.43.0


From f2a758af932b0c6b3fbea66ec7b4b12eb4c0bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 10/79] fix: horizontal flips and mirrors of 1 and 4 bit images
 are pixel exact

---
 pythonbmp/BITMAPlib.py | 90 ++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6ae8973..4fba33b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8323,6 +8323,45 @@ def fliphverticalalpixelbased(
         y2 -= 1
 
 
+@entirerectinboundary
+def _horitranspixelbased(bmp: array,
+        x1: int, y1: int,
+        x2: int, y2: int, trans: str):
+    """Do horizontal image transforms
+        in a rectangular region pixel
+        by pixel (pixels of 1 and 4 bit
+        images share bytes)
+
+    Args:
+        bmp           : unsigned
+                        byte array
+                        with bmp format
+        x1, y1, x2, y2: defines the
+                        rectangular
+                        region
+        trans         : single letter
+                        transform code
+                'L' - mirror left half
+                'R' - mirror right half
+                'F' - flip
+
+    Returns:
+        byref modified unsigned byte array
+    """
+    x1, y1, x2, y2 = sortrecpoints(
+                        x1, y1, x2, y2)
+    while x1 < x2:
+        for y in range(y1, y2 + 1):
+            c1 = getxybit(bmp, x1, y)
+            c2 = getxybit(bmp, x2, y)
+            if trans != 'R':
+                plotxybit(bmp, x2, y, c1)
+            if trans != 'L':
+                plotxybit(bmp, x1, y, c2)
+        x1 += 1
+        x2 -= 1
+
+
 @entirerectinboundary
 def horizontalbulkswap(bmp: array,
         x1: int, y1: int,
@@ -8376,6 +8415,11 @@ def fliphorizontalregion(bmp: array,
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixelbased(
+            bmp, x1, y1, x2, y2, 'F')
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s2: e2 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 2: e1: r], bmp[s2 + 2: e2: r] = \
         bmp[s2: e2 - 2: r], bmp[s1: e1 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s1 + 1: e1 - 1: r], bmp[s2 + 2: e2: r], bmp[s1 + 2: e1: r]
@@ -8384,21 +8428,11 @@ def fliphorizontalregion(bmp: array,
         bmp[s1: e1: r], bmp[s2: e2: r]= \
         bmp[s2: e2: r], bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-         flipnibbleinbuf(bmp[s2: e2: r]),  flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r], bmp[s2: e2: r] = \
-        rotatebitsinbuf(bmp[s2: e2: r]), rotatebitsinbuf(bmp[s1: e1: r])
-
     horizontalbulkswap(
         bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorleftinregion(
@@ -8418,6 +8452,11 @@ def mirrorleftinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixelbased(
+            bmp, x1, y1, x2, y2, 'L')
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]= \
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]
@@ -8425,20 +8464,10 @@ def mirrorleftinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s2: e2: r] = bmp[s1: e1: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-             flipnibbleinbuf(bmp[s1: e1: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s2: e2: r] = \
-            rotatebitsinbuf(bmp[s1: e1: r])
-
     horizontalbulkswap(bmp,
         x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorrightinregion(
@@ -8458,6 +8487,11 @@ def mirrorrightinregion(
         byref modified
         unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        _horitranspixelbased(
+            bmp, x1, y1, x2, y2, 'R')
+        return
+
     def _24(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1 - 2: r], bmp[s1 + 1: e1 - 1: r], bmp[s1 + 2: e1: r]=\
         bmp[s2: e2 - 2: r], bmp[s2 + 1: e2 - 1: r], bmp[s2 + 2: e2: r]
@@ -8465,20 +8499,10 @@ def mirrorrightinregion(
     def _8(bmp, s1, e1, s2, e2, r):
         bmp[s1: e1: r] = bmp[s2: e2: r]
 
-    def _4(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-             flipnibbleinbuf(bmp[s2: e2: r])
-
-    def _1(bmp, s1, e1, s2, e2, r):
-        bmp[s1: e1: r] = \
-            rotatebitsinbuf(bmp[s2: e2: r])
-
     horizontalbulkswap(
         bmp, x1, y1, x2, y2,
         {24: _24,
-          8: _8,
-          4: _4,
-          1: _1}[bmp[bmpcolorbits]])
+          8: _8}[bmp[bmpcolorbits]])
 
 
 def mirrorleft(bmp: array):
-- 
2.43.0


From caa1317813731d52497be656fe0564aea69cbbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 11/79] fix: vertical region flips and mirrors of 1 and 4 bit
 images are pixel exact

---
 pythonbmp/BITMAPlib.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4fba33b..0eea0d4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8142,6 +8142,44 @@ def mirrorbottom(bmp: array):
     verttrans(bmp, 'B')
 
 
+def _verttranspixelbased(bmp: array,
+        x1: int, y1: int,
+        x2: int, y2: int, trans: str):
+    """Do vertical image transforms
+        in a rectangular region pixel
+        by pixel (pixels of 1 and 4 bit
+        images share bytes)
+
+    Args:
+        bmp            : unsigned
+                         byte array
+                         with bmp format
+        x1, y1, x2, y2 : ints that
+                         defines the
+                         rectangular
+                         region
+        trans          : single letter
+                         transform code
+                'T' - mirror top half
+                'B' - mirror bottom half
+                'F' - flip
+
+    Returns:
+        byref modified
+        unsigned byte array
+    """
+    while y1 < y2:
+        for x in range(x1, x2 + 1):
+            c1 = getxybit(bmp, x, y1)
+            c2 = getxybit(bmp, x, y2)
+            if trans != 'B':
+                plotxybit(bmp, x, y2, c1)
+            if trans != 'T':
+                plotxybit(bmp, x, y1, c2)
+        y1 += 1
+        y2 -= 1
+
+
 @entirerectinboundary
 def verttransregion(bmp: array,
         x1: int, y1: int,
@@ -8184,6 +8222,10 @@ def verttransregion(bmp: array,
          'B': _B}[trans]
     x1, y1, x2, y2 = sortrecpoints(
                         x1, y1, x2, y2)
+    if bmp[bmpcolorbits] < 8:
+        _verttranspixelbased(
+            bmp, x1, y1, x2, y2, trans)
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     c = _getBMoffhdfunc(bmp)
-- 
2.43.0


From 6fbb7cdfa1b83159973a9b3c1c65b040bfaf8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 12/79] fix: color matching takes any rgb sequence, black given
 as a tuple matches black

---
 pythonbmp/colors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index c2fd5aa..81466e4 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -290,6 +290,7 @@ def matchRGBtopal(RGB: list,
     """
     c = i = 0
     d = 442
+    RGB = list(RGB)
     if RGB in pal:
         c = pal.index(RGB)
     else:
-- 
2.43.0


From 1c291a50b25a728b01ec220d2968fcb7ddc47644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 13/79] fix: filled rectangles of 8 bit images use the palette
 index given, as every other depth and drawing function does

---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 0eea0d4..7fa5731 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3984,8 +3984,7 @@ def filledrect(bmp: array,
                               rgb[1],
                               rgb[0]] * dx)
         elif bits == 8:
-            buf = array('B', [matchRGBtopal(rgb,
-                              getallRGBpal(bmp))] * dx)
+            buf = array('B', [color & 0xff] * dx)
         offset = c(bmp, x1, y2)
         lim = c(bmp, x2, y1)
         bufsize = len(buf)
-- 
2.43.0


From 050012f5d33207ec428421e2baf6615ff72039ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 14/79] fix: exact diagonal lines start at their first point
 and stay between their end points

---
 pythonbmp/primitives2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 4025e6a..1243b85 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -175,6 +175,8 @@ def iterline(p1: list[int, int],
     dyabs = abs(dy)
     x = y = 0
     (px, py) = p1
+    if dxabs == dyabs:
+        y = -dyabs
     if dxabs >= dyabs:
         ilim = dxabs + 1
         for _ in range(ilim):
-- 
2.43.0


From 975ce14fd4aa6387ef81442157a1afbb8de2987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 15/79] fix: ellipse boundary test uses the axis drawn along x
 for x

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 1243b85..141f5e5 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -872,10 +872,10 @@ def entireellipseisinboundary(
         False -> Not all (x, y)
                  is in bounds
     """
-    return (isinrange(x - b, maxx, minx) and \
-            isinrange(x + b, maxx, minx)) and \
-           (isinrange(y - a, maxy, miny) and \
-            isinrange(y + a, maxy, miny))
+    return (isinrange(x - a, maxx, minx) and \
+            isinrange(x + a, maxx, minx)) and \
+           (isinrange(y - b, maxy, miny) and \
+            isinrange(y + b, maxy, miny))
 
 
 def ellipsevert(x: int, y: int,
-- 
2.43.0


From 62eeb15fabedffc40965b56a32c18105b3efd08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 16/79] fix: circular region boundary check uses the image
 height for y

---
 pythonbmp/paramchecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/paramchecks.py b/pythonbmp/paramchecks.py
index 035e0a4..18d8adc 100644
--- a/pythonbmp/paramchecks.py
+++ b/pythonbmp/paramchecks.py
@@ -352,7 +352,7 @@ def entirecircleinboundary(func):
                            and type(r) == int:
             if entirecircleisinboundary(
                     x, y, -1, readint(bmpx, 4, bmp),
-                          -1, readint(bmpx, 4, bmp), r):
+                          -1, readint(bmpy, 4, bmp), r):
                 return(func(*args, **kwargs))
             else:
                 print(sysmsg['regionoutofbounds'])
-- 
2.43.0


From 3dfa9fad47d0847fdc4b0ce73736a5bd084632ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 17/79] fix: horizontal spans entirely beside the image draw
 nothing

---
 pythonbmp/BITMAPlib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7fa5731..b3ff40d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2026,6 +2026,8 @@ def horiline(bmp: array, y: int,
         x1 = setmin(x1, 0)
         x2 = setmax(x2, mx - 1)
         dx = x2 - x1 + 1
+        if dx < 1:
+            return
         s = _BMoffsethd(bmp, x1, y)
         if bits == 24:
             e = s + (dx * 3)
@@ -3394,6 +3396,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = array('B', [rgb[2],
                                        rgb[1],
@@ -3412,6 +3416,8 @@ def filledcircle(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, xmax)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, ymax, -1):
@@ -3764,6 +3770,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 rgb = int2RGBlist(color)
                 colorbuf = \
                  array('B', [rgb[2],
@@ -3783,6 +3791,8 @@ def filledellipse(bmp: array,
                 x1 = setmin(x1, 0)
                 x2 = setmax(x2, mx - 1)
                 dx = x2 - x1 + 1
+                if dx < 1:
+                    continue
                 colorbuf = \
                     array('B', [color & 0xff] * dx)
                 if isinrange(y2, my, -1):
-- 
2.43.0


From e1eb8b877e6cd80a2d1d764c61526f489b4d0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 18/79] fix: a one pixel wide 4 bit span no longer paints the
 pixel at its left

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b3ff40d..4eef6cf 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2049,7 +2049,8 @@ def horiline(bmp: array, y: int,
                 bmp[s] = c1 + (bmp[s] & 0xf)
             if x2 & 1 == 1:
                 plotxybit(bmp,
-                    x2 - 1, y, color)
+                    setmin(x2 - 1, x1),
+                    y, color)
         elif bits == 1:
             x2 += 1
             for x in range(x1, x2):
-- 
2.43.0


From 92b6080d6a3b1ab685cab950a9a08d401801c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:51 +0000
Subject: [PATCH 19/79] fix: ellipse outlines follow the ellipse (second octant
 used the wrong midpoint test), zero or negative radii end

---
 pythonbmp/primitives2D.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 141f5e5..92e7ba4 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -239,6 +239,8 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
     Yields:
         [x: int, y: int]
     """
+    if a < 0 or b < 0:
+        return
     row = b
     col = 0
     a_sqr = a * a
@@ -249,23 +251,27 @@ def iterellipsepart(b: int, a: int) -> list[int, int]:
     _4b_sqr = b_sqr << 2
     d= _2a_sqr * ((row - 1) * row) + \
         a_sqr + _2b_sqr * (1 - a_sqr)
-    while row * a_sqr >= col * b_sqr:
+    while row * a_sqr > col * b_sqr:
         yield [col, row]
         if d >= 0:
             row -= 1
             d -= _4a_sqr * row
         d += _2b_sqr * (3 + (col << 1))
         col += 1
-    d = _2b_sqr * ((col - 1) * col) + \
+    d = _2b_sqr * ((col + 1) * col) + \
         _2a_sqr * (row * (row - 2) + 1) + \
         (1 - _2a_sqr) * b_sqr
+    tip = col
     while row > -1:
         yield [col, row]
-        if d >= 0:
+        tip = col + 1
+        if d <= 0:
             col += 1
-            d -= _4b_sqr * col
-        d += _2a_sqr * (3 + (row << 1))
+            d += _4b_sqr * col
+        d += _2a_sqr * (3 - (row << 1))
         row -= 1
+    for col in range(tip, a + 1):
+        yield [col, 0]
 
 
 def iterellipse(x: int, y: int,
-- 
2.43.0


From 6ab5a630add54ef56da58cf915e4828ebee24c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 20/79] fix: a filled arc too narrow to hold an outline pixel
 draws nothing (was an IndexError)

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4eef6cf..ed96200 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3929,7 +3929,7 @@ def drawarc(bmp: array,
     for p in av:
         plotxybit(bmp, p[0], p[1],
             color)
-    if isfilled:
+    if isfilled and av:
         fillboundary(bmp,
             fillpolydata(av,
                 getmaxx(bmp),
-- 
2.43.0


From 4862ec8b3caf491e8e17baf5471b9557e7a7dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 21/79] fix: vertical lines entirely above or below the image
 draw nothing

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ed96200..1aea2d2 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2093,6 +2093,8 @@ def vertline(bmp: array, x: int,
             y1 = setmin(y1, 0)
             y2 = setmax(y2, my - 1)
             dy = y2 - y1 + 1
+            if dy < 1:
+                return
             rgb = int2RGBlist(color)
             s = c(bmp, x, y2)
             e = c(bmp, x, y1) + r
-- 
2.43.0


From 5a14ae77ce455d13cdf8f74e7948be8a2454295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:32 +0000
Subject: [PATCH 22/79] fix: pixel based flips accept the corners of the
 rectangle in any order

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1aea2d2..6fc81cc 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8335,6 +8335,7 @@ def fliphorzontalpixelbased(
         unsigned byte array
 
     """
+    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
     m = x1 + ((x2 - x1) >> 1)
     while x1 <= m:
         y = y1
@@ -8366,6 +8367,7 @@ def fliphverticalalpixelbased(
         byref modified
         unsigned byte array
     """
+    x1, y1, x2, y2 = sortrecpoints(x1, y1, x2, y2)
     m = y1 + ((y2 - y1) >> 1)
     while y1 <= m:
         x = x1
-- 
2.43.0


From a491f609468212fc27cc6ca3378dcfc87a965dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 23/79] fix: circular filters clip at the image border (tuple
 offset, spans beside the image, last column)

---
 pythonbmp/BITMAPlib.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6fc81cc..30b8a7d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2519,9 +2519,11 @@ def _usenopar24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
-                s2 = c(bmp, x1 ,y2),
+                s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
                 bmp[s2: e2] = func(bmp[s2: e2])
             if isinrange(y1, ymax, -1) and y2 != y1:
@@ -2577,7 +2579,9 @@ def _use24btfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -2728,7 +2732,9 @@ def _usenoparfn2circreg(bmp: array,
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
-            x2 = setmax(x2, xmax - 1)
+            x2 = setmax(x2, xmax)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
@@ -3212,6 +3218,8 @@ def outlinecircregion(bmp: array,
             y1, y2 = mirror(y, v1)
             x1 = setmin(x1, 0)
             x2 = setmax(x2, xmax - 1)
+            if x1 >= x2:
+                continue
             if isinrange(y2, ymax, -1):
                 s2 = c(bmp, x1, y2)
                 e2 = c(bmp, x2, y2)
-- 
2.43.0


From 66506893169c8b1b751a3fdf0c1336e1e60dba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 24/79] fix: circular region copies, flips, mirrors, inverts,
 erases and outlines of 1 and 4 bit images are pixel exact, a paste of another
 depth reports it

---
 pythonbmp/BITMAPlib.py | 117 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 106 insertions(+), 11 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 30b8a7d..37474e6 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -2617,8 +2617,12 @@ def copycircregion2buf(bmp: array,
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
-                     bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
+        if copybuf[0] < 8:
+            copybuf += [[_getpixelspan(bmp, x1, x2, y1),
+                         _getpixelspan(bmp, x1, x2, y2)]]
+        else:
+            copybuf += [[bmp[c(bmp, x1, y1): c(bmp, x2, y1)],
+                         bmp[c(bmp, x1, y2): c(bmp, x2, y2)]]]
     return copybuf
 
 
@@ -2652,12 +2656,16 @@ def pastecirularbuf(bmp: array,
                 for i, (v0, v1) in enumerate(itercirclepartlineedge(r), start=2):
                     x1, x2 = mirror(x, v0)
                     y1, y2 = mirror(y, v1)
-                    bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-                        circbuf[i][0]
-                    bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-                        circbuf[i][1]
+                    if circbuf[0] < 8:
+                        _putpixelspan(bmp, x1, y1, circbuf[i][0])
+                        _putpixelspan(bmp, x1, y2, circbuf[i][1])
+                    else:
+                        bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
+                            circbuf[i][0]
+                        bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
+                            circbuf[i][1]
             else:
-                raise(sysmsg['bitsnotequal'])
+                print(sysmsg['bitsnotequal'])
         else:
             print(sysmsg['regionoutofbounds'])
 
@@ -2689,6 +2697,45 @@ def copycircregion(bmp: array,
       copycircregion2buf(bmp, x, y, r))
 
 
+def _getpixelspan(bmp: array,
+        x1: int, x2: int, y: int) -> list[int]:
+    """Gets the colors of the pixels
+        from x1 up to (not including) x2
+        in row y
+
+    Args:
+        bmp       : unsigned byte array
+                    with bmp format
+        x1, x2, y : sets the limits
+                    of the span
+
+    Returns:
+        list of colors
+    """
+    return [getxybit(bmp, x, y)
+                for x in range(x1, x2)]
+
+
+def _putpixelspan(bmp: array,
+        x: int, y: int,
+        colors: list[int]):
+    """Sets the colors of the pixels
+        from x onwards in row y
+
+    Args:
+        bmp    : unsigned byte array
+                 with bmp format
+        x, y   : first pixel
+                 of the span
+        colors : list of colors
+
+    Returns:
+        byref modified unsigned byte array
+    """
+    for i, color in enumerate(colors):
+        plotxybit(bmp, x + i, y, color)
+
+
 @intcircleparam
 def _usenoparfn2circreg(bmp: array,
         x: int, y: int, r: int,
@@ -2711,6 +2758,19 @@ def _usenoparfn2circreg(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
+    if bmp[bmpcolorbits] < 8:
+        xmax, ymax = getmaxxy(bmp)
+        m = getmaxcolors(bmp) - 1
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            x1 = setmin(x1, 0)
+            x2 = setmax(x2, xmax)
+            for y1 in set(mirror(y, v1)):
+                if x1 < x2 and isinrange(y1, ymax, -1):
+                    _putpixelspan(bmp, x1, y1,
+                        [color & m for color in func(array('B',
+                            _getpixelspan(bmp, x1, x2, y1)))])
+        return
     c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y, -1, getmaxx(bmp),
@@ -2768,10 +2828,10 @@ def flipXYcircregion(bmp: array,
             y3, y4 = mirror(x, v1)
             x1, x2 = mirror(x, v0)
             y1, y2 = mirror(y, v1)
-            bmp[c(bmp, x1, y1): c(bmp, x2, y1)] = \
-              n[c(n, x3, y3): c(n, x4, y3)]
-            bmp[c(bmp, x1, y2): c(bmp, x2, y2)] = \
-              n[c(n, x3, y4): c(n, x4, y4)]
+            _putpixelspan(bmp, x1, y1,
+                _getpixelspan(n, x3, x4, y3))
+            _putpixelspan(bmp, x1, y2,
+                _getpixelspan(n, x3, x4, y4))
     else:
         buf = []
         for (v0, v1) in itercirclepartlineedge(r):
@@ -2970,6 +3030,17 @@ def verttransformincircregion(
          'B': _B,
          'F' : _F}[trans]
 
+    if bmp[bmpcolorbits] < 8:
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            y1, y2 = mirror(y, v1)
+            top = _getpixelspan(bmp, x1, x2, y1)
+            bottom = _getpixelspan(bmp, x1, x2, y2)
+            if trans != 'T':
+                _putpixelspan(bmp, x1, y1, bottom)
+            if trans != 'B':
+                _putpixelspan(bmp, x1, y2, top)
+        return
     c=_getBMoffhdfunc(bmp)
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -3179,6 +3250,18 @@ def outlinecircregion(bmp: array,
         byref modified unsigned byte array
     """
     bits = bmp[bmpcolorbits]
+    if bits < 8:
+        xmax, ymax = getmaxxy(bmp)
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            x1 = setmin(x1, 0)
+            x2 = setmax(x2, xmax - 1)
+            for y1 in set(mirror(y, v1)):
+                if x1 < x2 and isinrange(y1, ymax, -1):
+                    _putpixelspan(bmp, x1, y1, xorvect(
+                        _getpixelspan(bmp, x1, x2, y1),
+                        _getpixelspan(bmp, x1 + 1, x2 + 1, y1)))
+        return
     c = _getBMoffhdfunc(bmp)
     if entirecircleisinboundary(
             x, y,
@@ -7963,6 +8046,18 @@ def erasealternatehorizontallinesincircregion(
     """
     c = _getBMoffhdfunc(bmp)
     bytepat &= 0xff
+    bits = bmp[bmpcolorbits]
+    if bits < 8:
+        m = getmaxcolors(bmp) - 1
+        for (v0, v1) in itercirclepartlineedge(r):
+            x1, x2 = mirror(x, v0)
+            for y1 in mirror(y, v1):
+                if y1 % int_eraseeverynline == \
+                        int_eraseNthline:
+                    _putpixelspan(bmp, x1, y1,
+                        [(bytepat >> (8 - bits - (i * bits) % 8)) & m
+                            for i in range(x1, x2)])
+        return
     for v in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v[0])
         y1, y2 = mirror(y, v[1])
-- 
2.43.0


From 70d3a8e364a2d19172d08f49e5f4d3cf6bfa59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 25/79] fix: color filter factors above 1 saturate (were an
 OverflowError)

---
 pythonbmp/colors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 81466e4..b0c657c 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -796,9 +796,9 @@ def applycolorfiltertoBGRbuf(
     m = len(buf) - 1
     (r, g, b) = rgbfactors
     buf[0 : m - 2 : 3], buf[1 : m - 1 : 3], buf[2: m: 3] = (
-    array('B', intscalarmulvect(buf[  : m - 2 : 3], b)),
-    array('B', intscalarmulvect(buf[1 : m - 1 : 3], g)),
-    array('B', intscalarmulvect(buf[2 : m     : 3], r)),
+    array('B', setminmaxvec(intscalarmulvect(buf[  : m - 2 : 3], b), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[1 : m - 1 : 3], g), 0, 255)),
+    array('B', setminmaxvec(intscalarmulvect(buf[2 : m     : 3], r), 0, 255)),
     )
 
 
-- 
2.43.0


From 6bc524094fb63898641f17ffe9c104cbc8e0f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 26/79] fix: pixelized circles stop at the last whole block
 (read beyond the smaller image)

---
 pythonbmp/BITMAPlib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 37474e6..ac6544c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12693,8 +12693,11 @@ def pixelizenxncircregion(bmp: array,
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
         y1, y2 = mirror(y, v1)
-        bmp[c(bmp, x1, y1): c(bmp, x2, y1)], bmp[c(bmp, x1, y2): c(bmp,x2,y2)]= \
-        b[c(b, x1, y1): c(b, x2, y1)], b[c(b, x1, y2): c(b, x2, y2)]
+        x2 = setmax(x2, getmaxx(b))
+        for py in (y1, y2):
+            if x1 < x2 and py < getmaxy(b):
+                bmp[c(bmp, x1, py): c(bmp, x2, py)] = \
+                    b[c(b, x1, py): c(b, x2, py)]
 
 
 @func24bitonly
-- 
2.43.0


From d4eab7eecafd2ea2251e1b2e067b895a6e942afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 27/79] fix: copied rectangles of any size (row bytes, width
 and height overflowed 2 bytes)

---
 pythonbmp/BITMAPlib.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index ac6544c..4f9763a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7823,9 +7823,9 @@ def copyrect(bmp: array,
     retval = array('B', [bmp[bmpcolorbits]])
     x1, y1, x2, y2 = \
        sortrecpoints(x1, y1, x2, y2)
-    retval += int2buf(2, x2 - x1)
-    retval += int2buf(2, y2 - y1)
-    retval += int2buf(2,
+    retval += int2buf(4, x2 - x1)
+    retval += int2buf(4, y2 - y1)
+    retval += int2buf(4,
                 adjustxbufsize(bmp, x1, x2))
     for buf in itercopyrect(
                     bmp, x1, y1, x2, y2):
@@ -7851,15 +7851,15 @@ def pasterect(bmp: array, buf: array,
     if bmp[bmpcolorbits] != buf[0]:
         print(sysmsg['bitsnotequal'])
     else:
-        x2 = x1 + buf2int(buf[1: 3])
-        y2 = y1 + buf2int(buf[3: 5])
+        x2 = x1 + buf2int(buf[1: 5])
+        y2 = y1 + buf2int(buf[5: 9])
         r = _xchrcnt(bmp)
         if listinBMPrecbnd(bmp, ((x1, y1),
                                 (x2, y2))):
             offset = _BMoffset(bmp, x1, y2)
-            br = buf2int(buf[5: 7])
-            startoff = 7
-            endoff = br + 7
+            br = buf2int(buf[9: 13])
+            startoff = 13
+            endoff = br + 13
             bufsize = len(buf)
             if buf[0] < 8:
                 _pastepixels(bmp, buf, x1, y1,
@@ -7896,9 +7896,9 @@ def _pastepixels(bmp: array, buf: array,
         byref modified unsigned byte array
     """
     bits = buf[0]
-    br = buf2int(buf[5: 7])
+    br = buf2int(buf[9: 13])
     mask = (1 << bits) - 1
-    startoff = 7
+    startoff = 13
     for y in range(y2, y1 - 1, -1):
         i = 0
         for x in range(x1, x2 + 1):
@@ -7924,8 +7924,8 @@ def convertselection2BMP(buf: array):
         print (sysmsg['invalidbuf'])
     else:
         bmp = newBMP(
-                buf2int(buf[1: 3]) + 1,
-                buf2int(buf[3: 5]) + 1,
+                buf2int(buf[1: 5]) + 1,
+                buf2int(buf[5: 9]) + 1,
                 bits)
         pasterect(bmp, buf, 0, 0)
     return bmp
-- 
2.43.0


From a598ab2e35d62d40ea10adab9288c560bad13e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 28/79] fix: iterimageRGB of 1 and 4 bit images keeps rows
 apart at any width

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4f9763a..7eea711 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7727,7 +7727,7 @@ def iterimageRGB(bmp: array,
                                 b[offset + 1],
                                 b[offset]))
             x += 1
-        if x == mx:
+        if x >= mx:
             x = 0
             y -= 1
             offset += padbytes
-- 
2.43.0


From 8a2debe389eb9bc3c4ee824df6e5c5a794fc4c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 29/79] fix: neighbors in the first row and column are
 neighbors too

---
 pythonbmp/primitives2D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 92e7ba4..717be41 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -676,20 +676,20 @@ def itergetneighbors(v: list[int, int],
         ty = y - 1
         rx = x + 1
         by = y + 1
-        if ty > 0:
+        if ty > -1:
             yield [x, ty]
         if includecenter:
             yield(v)
         if by < my:
             yield [x, by]
-        if lx > 0:
-            if ty > 0:
+        if lx > -1:
+            if ty > -1:
                 yield [lx, ty]
             yield [lx, y]
             if by < my:
                 yield [lx, by]
         if rx < mx:
-            if ty > 0:
+            if ty > -1:
                 yield [rx, ty]
             yield [rx, y]
             if by < my:
-- 
2.43.0


From 24832f95f3f59d45455aef07c7637738b9690361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 30/79] fix: a palette made from an image with few colors is
 stored in the new image

---
 pythonbmp/BITMAPlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7eea711..06ed36a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -1319,7 +1319,8 @@ def setnewpalfromsourcebmp(
         colorhistogram(sourcebmp),
         getmaxcolors(newbmp),
         similaritythreshold)
-    setbmppal(newbmp, newpal)
+    for c, (r, g, b) in enumerate(newpal):
+        setRGBpal(newbmp, c, r, g, b)
     return newpal
 
 
-- 
2.43.0


From 2b553e4d0a1d74477fec8e3a43bb2620b6c59831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 31/79] fix: erasing every nth line reaches the bottom row

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 06ed36a..716db6e 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7984,7 +7984,7 @@ def erasealternatehorizontallines(
     bytepat &= 0xff
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
@@ -8140,7 +8140,7 @@ def erasealternatehorizontallinesinregion(
     s2 = f(bmp, x1, y1)
     blank = array('B', [bytepat] * bufsize)
     i = 1
-    while s2 > s1:
+    while s2 >= s1:
         if i % int_eraseeverynline == \
                int_eraseNthline:
             bmp[s2: s2 + bufsize] = blank
-- 
2.43.0


From 88b699f0fa747c33c464f5560fde98d62060a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:35 +0000
Subject: [PATCH 32/79] fix: erasing lines of a region of a 1 or 4 bit image is
 pixel exact

---
 pythonbmp/BITMAPlib.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 716db6e..8672a5c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -8133,6 +8133,18 @@ def erasealternatehorizontallinesinregion(
     bytepat &= 0xff
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
+    bits = bmp[bmpcolorbits]
+    if bits < 8:
+        m = getmaxcolors(bmp) - 1
+        blank = [bytepat >> (8 - bits -
+                    i * bits % 8) & m
+                 for i in range(x1, x2 + 1)]
+        for y in range(y1, y2 + 1):
+            if (y - y1 + 1) % \
+                    int_eraseeverynline == \
+                    int_eraseNthline:
+                _putpixelspan(bmp, x1, y, blank)
+        return
     bufsize = adjustxbufsize(bmp, x1, x2)
     r = _xchrcnt(bmp)
     f = _getBMoffhdfunc(bmp)
-- 
2.43.0


From a725d3b3e5a423086beaf90a795cf89fe23beadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:41 +0000
Subject: [PATCH 33/79] fix: outlining a region takes its corners in any order
 and is pixel exact on 1 and 4 bit images

---
 pythonbmp/BITMAPlib.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8672a5c..55dc8e1 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12839,6 +12839,18 @@ def _cmpimglines(bmp: array,
         x1: int, y1: int,
         x2: int, y2: int,
         func: Callable):
+    x1, y1, x2, y2 = \
+        sortrecpoints(x1, y1, x2, y2)
+    if bmp[bmpcolorbits] < 8:
+        oldbuf = _getpixelspan(
+                    bmp, x1, x2 + 1, y2)
+        for y in range(y2, y1 - 1, -1):
+            buf = _getpixelspan(bmp, x1,
+                    x2 + 1, max(y - 1, y1))
+            _putpixelspan(bmp, x1, y,
+                    func(buf, oldbuf))
+            oldbuf = buf
+        return
     offset = _BMoffset(bmp, x1, y2)
     r = _xchrcnt(bmp)
     oldbuf = []
-- 
2.43.0


From cfba1a7669a0ad55d35dce76d168be340f6099c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 34/79] fix: horizontal brightness gradients of one column wide
 regions work (were a ZeroDivisionError)

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 55dc8e1..8ec6e00 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12647,7 +12647,7 @@ def horizontalbrightnessgradto24bitregion(
     xlim = x2 + 1
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (x2 - x1)
+    dl = delta(lumrange) / max(x2 - x1, 1)
     for x in range(x1, xlim):
         s = c(bmp, x, y2)
         e = c(bmp, x, y1)
-- 
2.43.0


From ec6e6c0667fe1f671698aa593ef3ca44427e1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 35/79] fix: vertical brightness gradients of one row high
 regions work (were a ZeroDivisionError)

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 8ec6e00..d62af19 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12610,7 +12610,7 @@ def verticalbrightnessgradto24bitregion(
     offset = _24bmof(bmp, x1, y2)
     r = _xchrcnt(bmp)
     lum = lumrange[1]
-    dlum = (lumrange[0] - lum) / (y2 - y1)
+    dlum = (lumrange[0] - lum) / max(y2 - y1, 1)
     for buf in itercopyrect(bmp, x1, y1, x2, y2):
         BMPbitBLTput(bmp, offset,
              applybrightnessadjtoBGRbuf(buf, lum))
-- 
2.43.0


From 49d24c8c910d784cd9e1230c5079b5f8aaed7a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 36/79] fix: packing bits keeps their order (the first bit of
 each byte is the highest), 1 bit images enlarge correctly

---
 pythonbmp/bufresize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/bufresize.py b/pythonbmp/bufresize.py
index 22eb359..50cce80 100644
--- a/pythonbmp/bufresize.py
+++ b/pythonbmp/bufresize.py
@@ -94,7 +94,7 @@ def packbitlisttobuf(blist: list[int]
     b = 0
     while i < j:
         m = i % 8
-        b += blist[i - 1] << (7 - m)
+        b += blist[i - 1] << (-m & 7)
         if m == 0 and i > 1:
             retval += [b]
             b = 0
-- 
2.43.0


From 0407e821e6e5427b43a0e6cb6b42bb03c00d00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 37/79] fix: gradient rotated ellipses use the interpolation
 function given

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index d62af19..641b67b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3822,7 +3822,7 @@ def gradthickellipserot(bmp: array,
     """
     (l1, l2) = lumrange
     for i in range(penradius, 0, -1):
-        c = colormix(int(lerp(l1, l2, i / penradius)),
+        c = colormix(int(fn(l1, l2, i / penradius)),
                 RGBfactors)
         if bmp[bmpcolorbits] != 24:
             c = matchRGBtopal(
-- 
2.43.0


From 4394d47ff083258feef07e06b19eae0c64390d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:12 +0000
Subject: [PATCH 38/79] fix: crop by a rectangle boundary that touches the
 right or bottom border

---
 pythonbmp/BITMAPlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 641b67b..32f7853 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14070,11 +14070,12 @@ def cropBMPandsaveusingrectbnd(
     Returns:
         new bitmap file
     """
+    xmax, ymax = getmaxxy(loadBMP(ExistingBMPfile))
     _usefn2regsv(ExistingBMPfile,
         NewBMPfile, rectbnd[0][0],
         rectbnd[0][1],
-        rectbnd[1][0] + 1,
-        rectbnd[1][1] + 1, crop)
+        setmax(rectbnd[1][0] + 1, xmax - 1),
+        setmax(rectbnd[1][1] + 1, ymax - 1), crop)
 
 
 @checklinks
-- 
2.43.0


From 50fffc66fa5b7d65702fc481a96cd117f5cb3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 39/79] fix: save a color cycle in the directory asked for when
 its path is absolute

---
 pythonbmp/BITMAPlib.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 32f7853..4e2f72c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -41,7 +41,6 @@ from math import(
 from os import (
     TMP_MAX,
     environ,
-    getcwd,
     mkdir
     )
 
@@ -13685,14 +13684,13 @@ def _usefndirsv(
         new bitmap files in a new directory
     """
     obmp = loadBMP(ExistingBMPfile)
-    cwd = getcwd()
     try:
         mkdir(NewDir)
     except FileExistsError:
         if not overwritedir:
             raise FileExistsError(sysmsg['direxist'])
     for (i, bmp) in enumerate(func(obmp)):
-        NewBMPfile = f'{cwd}/{NewDir}/{i}.bmp'
+        NewBMPfile = f'{NewDir}/{i}.bmp'
         saveBMP(NewBMPfile, bmp)
         print(sysmsg['savefunc'] %
         (func.__name__ ,
-- 
2.43.0


From 40183010f55f0a7299191cf410733e70da308980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 40/79] fix: sphere2file reports a missing input file like the
 other file functions

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 4e2f72c..b4f2d9b 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -13861,6 +13861,7 @@ def _use24btclrfnwithpar2circreg(
             ExistingBMPfile, NewBMPfile))
 
 
+@checklink
 def _use24btclrfnwithmultpar2circreg(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From 65a7a5e95ee621cd92b216d27fd10031fc595d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 41/79] fix: autocropimg2file reports a missing input file like
 the other file functions

---
 pythonbmp/BITMAPlib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index b4f2d9b..addb560 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -14761,6 +14761,7 @@ def invertregion2file(
 
 
 @functimer
+@checklink
 def autocropimg2file(
         ExistingBMPfile: str,
         NewBMPfile: str,
-- 
2.43.0


From 126d0150be3842dd7b1eef3c26cadf86cb9d1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 42/79] fix: brightness gradients of a circle of radius 0 work
 (were a ZeroDivisionError)

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index addb560..5ba4908 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -3185,7 +3185,7 @@ def vertbrightnessgrad2circregion(
     c = _getBMoffhdfunc(bmp)
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / max(2 * r, 1)
     b = y - r
     for (v0, v1) in itercirclepartlineedge(r):
         x1, x2 = mirror(x, v0)
@@ -3221,7 +3221,7 @@ def horibrightnessgrad2circregion(
     """
     f =  applybrightnessadjtoBGRbuf
     l = lumrange[0]
-    dl = delta(lumrange) / (2 * r)
+    dl = delta(lumrange) / max(2 * r, 1)
     b = x - r
     for (v0, v1)  in itercirclepartvertlineedge(r):
         x1, x2 = mirror(x, v0)
-- 
2.43.0


From 87a561d52095db294d61514c97b20102c1d301b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 43/79] fix: upside down text as dots keeps the letter order of
 other upside down text

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5ba4908..481e495 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -6295,7 +6295,7 @@ def plotstringupsidedownasdots(
     plotstringfunc(bmp, x, y, str2plot,
         scale, pixspace,
         spacebetweenchar, color,
-        fontbuf, enumletters,
+        fontbuf, enumreverseletters,
         plot8bitpatternupsidedownasdots)
 
 
-- 
2.43.0


From b33a9d7a56bf835af9f10e196e25a17b316001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 44/79] fix: sideways italics of scale 1 slant like those of
 every other scale

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 481e495..f20e13c 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -5042,7 +5042,7 @@ def plotitalic8bitpatternsidewaywithfn(
             x += scale
             y = oy + i
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
     elif type(color) == list or type(color) == tuple:
         colorcnt = len(color)
         colorind = 0
@@ -5064,7 +5064,7 @@ def plotitalic8bitpatternsidewaywithfn(
             if colorind == colorcnt:
                 colorind = 0
             if x % 2 == 0 and scale == 1:
-                y -= 1
+                y += 1
 
 def plot8bitpatternsideway(
         bmp: array, x: int, y: int,
-- 
2.43.0


From b3267329240dc24f2f3061f8d6ad36b34578a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 45/79] fix: sideways text takes one color of the list per font
 row

---
 pythonbmp/BITMAPlib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f20e13c..5b87f80 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -4993,9 +4993,9 @@ def plot8bitpatternsidewaywithfn(
                         fn(bmp, x, y, inc, cl)
                 mask >>= 1
                 y -= scale
-                colorind += 1
-                if colorcnt == colorind:
-                    colorind = 0
+            colorind += 1
+            if colorcnt == colorind:
+                colorind = 0
             x += scale
             y = oy
 
-- 
2.43.0


From 51ca5558230ffb36a139c9be66fda065e812c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 46/79] fix: number every vertex by its position also where
 vertices repeat

---
 pythonbmp/BITMAPlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 5b87f80..f92ceb4 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7200,8 +7200,7 @@ def numbervert(bmp: array,
         rightjustify: bool):
     plot = False
     maxv = len(vlist) - 1
-    for v in vlist:
-        i = vlist.index(v)
+    for (i, v) in enumerate(vlist):
         plot = True if i > 0 else not suppresszero
         if i == maxv and suppresslastnum:
             plot = False
-- 
2.43.0


From 6d5d1364b2ebb3927aecfd077a3c75bb99b35adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:43 +0000
Subject: [PATCH 47/79] fix: print the bottom row of an image as text too

---
 pythonbmp/BITMAPlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f92ceb4..1f1bef5 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12440,7 +12440,7 @@ def plotbmpastext(bmp: array):
     my = getmaxy(bmp) - 1
     r = _xchrcnt(bmp)
     offset = _hdsz(bmp)
-    for y in range(my, 0, -1):
+    for y in range(my, -1, -1):
         for x in range(r):
             i = offset + r * y + x
             if bits == 1:
-- 
2.43.0


From 5d7880ede593f91304ed916adda69424234543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 48/79] fix: X11 color names have the values of the X11 color
 table

---
 pythonbmp/X11colordict.py | 166 +++++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 83 deletions(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index c68dbfd..79f17b7 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -3,27 +3,27 @@ def getX11colorname2HSLdict() -> dict:
 'aliceblue': (208, 100, 97),
 'antiquewhite': (208, 100, 97),
 'antiquewhite': (34, 78, 91),
-'antiquewhite1': (34, 78, 91),
-'antiquewhite2': (33, 100, 93),
-'antiquewhite3': (34, 50, 87),
-'antiquewhite4': (33, 22, 75),
-'aqua': (171, 85, 50),
+'antiquewhite1': (33, 100, 93),
+'antiquewhite2': (34, 50, 87),
+'antiquewhite3': (33, 22, 75),
+'antiquewhite4': (35, 8, 51),
+'aqua': (180, 100, 50),
 'aquamarine': (180, 100, 50),
 'aquamarine1': (160, 100, 75),
-'aquamarine2': (160, 100, 75),
-'aquamarine3': (160, 78, 70),
-'aquamarine4': (160, 51, 60),
-'azure': (160, 34, 41),
+'aquamarine2': (160, 78, 70),
+'aquamarine3': (160, 51, 60),
+'aquamarine4': (160, 34, 41),
+'azure': (180, 100, 97),
 'azure1': (180, 100, 97),
-'azure2': (180, 100, 97),
-'azure3': (180, 29, 91),
-'azure4': (180, 11, 78),
-'beige': (180, 3, 53),
-'bisque': (60, 56, 91),
+'azure2': (180, 29, 91),
+'azure3': (180, 11, 78),
+'azure4': (180, 3, 53),
+'beige': (60, 56, 91),
+'bisque': (33, 100, 88),
 'bisque1': (33, 100, 88),
-'bisque2': (33, 100, 88),
-'bisque3': (33, 62, 83),
-'bisque4': (32, 32, 71),
+'bisque2': (33, 62, 83),
+'bisque3': (32, 32, 71),
+'bisque4': (34, 13, 48),
 'black': (0, 0, 0),
 'blanchedalmond': (36, 100, 90),
 'blue': (240, 100, 50),
@@ -98,7 +98,7 @@ def getX11colorname2HSLdict() -> dict:
 'darkgoldenrod2': (43, 89, 49),
 'darkgoldenrod3': (43, 89, 43),
 'darkgoldenrod4': (43, 89, 29),
-'darkgray': (82, 39, 30),
+'darkgray': (0, 0, 66),
 'darkolivegreen1': (82, 100, 72),
 'darkolivegreen2': (82, 80, 67),
 'darkolivegreen3': (82, 53, 58),
@@ -111,17 +111,17 @@ def getX11colorname2HSLdict() -> dict:
 'darkorchid2': (280, 84, 58),
 'darkorchid3': (280, 61, 50),
 'darkorchid4': (280, 61, 34),
-'darkred': (120, 25, 65),
+'darkred': (0, 100, 27),
 'darkseagreen1': (120, 100, 88),
 'darkseagreen2': (120, 63, 82),
 'darkseagreen3': (120, 33, 71),
 'darkseagreen4': (120, 14, 48),
-'darkslateblue': (180, 25, 25),
+'darkslateblue': (248, 39, 39),
 'darkslategray1': (180, 100, 80),
 'darkslategray2': (180, 74, 74),
 'darkslategray3': (180, 46, 64),
 'darkslategray4': (180, 26, 43),
-'darkslategrey': (282, 100, 41),
+'darkslategrey': (180, 25, 25),
 'deeppink': (328, 100, 54),
 'deepskyblue': (195, 100, 50),
 'deeppink1': (328, 100, 54),
@@ -428,7 +428,7 @@ def getX11colorname2HSLdict() -> dict:
 'lightblue2': (195, 64, 82),
 'lightblue3': (195, 34, 70),
 'lightblue4': (194, 14, 48),
-'lightcoral': (180, 100, 94),
+'lightcoral': (0, 79, 72),
 'lightcyan1': (180, 100, 94),
 'lightcyan2': (180, 46, 88),
 'lightcyan3': (180, 20, 75),
@@ -437,7 +437,7 @@ def getX11colorname2HSLdict() -> dict:
 'lightgoldenrod2': (50, 76, 72),
 'lightgoldenrod3': (50, 48, 62),
 'lightgoldenrod4': (50, 29, 42),
-'lightgoldenrodyellow': (351, 100, 86),
+'lightgoldenrodyellow': (60, 80, 90),
 'lightpink1': (352, 100, 84),
 'lightpink2': (351, 69, 78),
 'lightpink3': (352, 39, 68),
@@ -446,12 +446,12 @@ def getX11colorname2HSLdict() -> dict:
 'lightsalmon2': (17, 78, 69),
 'lightsalmon3': (17, 52, 59),
 'lightsalmon4': (17, 36, 40),
-'lightseagreen': (203, 92, 75),
+'lightseagreen': (177, 70, 41),
 'lightskyblue1': (202, 100, 85),
 'lightskyblue2': (202, 69, 79),
 'lightskyblue3': (202, 39, 68),
 'lightskyblue4': (202, 18, 46),
-'lightslateblue': (214, 41, 78),
+'lightslateblue': (248, 100, 72),
 'lightsteelblue1': (214, 100, 90),
 'lightsteelblue2': (214, 60, 84),
 'lightsteelblue3': (213, 30, 72),
@@ -482,7 +482,7 @@ def getX11colorname2HSLdict() -> dict:
 'mediumspringgreen': (157, 100, 49),
 'mediumturquoise': (178, 60, 55),
 'mediumvioletred': (322, 81, 43),
-'mediumaquamarine': (288, 59, 58),
+'mediumaquamarine': (160, 51, 60),
 'mediumorchid1': (288, 100, 70),
 'mediumorchid2': (288, 81, 65),
 'mediumorchid3': (288, 55, 56),
@@ -491,7 +491,7 @@ def getX11colorname2HSLdict() -> dict:
 'mediumpurple2': (259, 77, 70),
 'mediumpurple3': (260, 50, 61),
 'mediumpurple4': (259, 32, 41),
-'mediumseagreen': (322, 81, 43),
+'mediumseagreen': (147, 50, 47),
 'midnightblue': (240, 64, 27),
 'mintcream': (150, 100, 98),
 'mistyrose': (6, 100, 94),
@@ -533,7 +533,7 @@ def getX11colorname2HSLdict() -> dict:
 'palegreen': (120, 93, 79),
 'paleturquoise': (180, 65, 81),
 'palevioletred': (340, 60, 65),
-'palegoldenrod': (120, 93, 79),
+'palegoldenrod': (55, 67, 80),
 'palegreen1': (120, 100, 80),
 'palegreen2': (120, 73, 75),
 'palegreen3': (120, 45, 65),
@@ -699,27 +699,27 @@ def getX11colorname2RGBdict() -> dict:
 'aliceblue': 15792383,
 'antiquewhite': 15792383,
 'antiquewhite': 16444375,
-'antiquewhite1': 16444375,
-'antiquewhite2': 16773083,
-'antiquewhite3': 15654860,
-'antiquewhite4': 13484208,
+'antiquewhite1': 16773083,
+'antiquewhite2': 15654860,
+'antiquewhite3': 13484208,
+'antiquewhite4': 9143160,
 'aqua': 65535,
 'aquamarine': 65535,
 'aquamarine1': 8388564,
-'aquamarine2': 8388564,
-'aquamarine3': 7794374,
-'aquamarine4': 6737322,
-'azure': 4557684,
+'aquamarine2': 7794374,
+'aquamarine3': 6737322,
+'aquamarine4': 4557684,
+'azure': 15794175,
 'azure1': 15794175,
-'azure2': 15794175,
-'azure3': 14741230,
-'azure4': 12701133,
-'beige': 8620939,
-'bisque': 16119260,
+'azure2': 14741230,
+'azure3': 12701133,
+'azure4': 8620939,
+'beige': 16119260,
+'bisque': 16770244,
 'bisque1': 16770244,
-'bisque2': 16770244,
-'bisque3': 15652279,
-'bisque4': 13481886,
+'bisque2': 15652279,
+'bisque3': 13481886,
+'bisque4': 9141611,
 'black': 0,
 'blanchedalmond': 16772045,
 'blue': 255,
@@ -794,7 +794,7 @@ def getX11colorname2RGBdict() -> dict:
 'darkgoldenrod2': 15641870,
 'darkgoldenrod3': 13473036,
 'darkgoldenrod4': 9135368,
-'darkgray': 5597999,
+'darkgray': 11119017,
 'darkolivegreen1': 13303664,
 'darkolivegreen2': 12381800,
 'darkolivegreen3': 10669402,
@@ -807,17 +807,17 @@ def getX11colorname2RGBdict() -> dict:
 'darkorchid2': 11680494,
 'darkorchid3': 10105549,
 'darkorchid4': 6824587,
-'darkred': 9419919,
+'darkred': 9109504,
 'darkseagreen1': 12713921,
 'darkseagreen2': 11857588,
 'darkseagreen3': 10210715,
 'darkseagreen4': 6916969,
-'darkslateblue': 3100495,
+'darkslateblue': 4734347,
 'darkslategray1': 9961471,
 'darkslategray2': 9301742,
 'darkslategray3': 7982541,
 'darkslategray4': 5409675,
-'darkslategrey': 9699539,
+'darkslategrey': 3100495,
 'deeppink': 16716947,
 'deepskyblue': 49151,
 'deeppink1': 16716947,
@@ -1124,7 +1124,7 @@ def getX11colorname2RGBdict() -> dict:
 'lightblue2': 11722734,
 'lightblue3': 10141901,
 'lightblue4': 6849419,
-'lightcoral': 14745599,
+'lightcoral': 15761536,
 'lightcyan1': 14745599,
 'lightcyan2': 13758190,
 'lightcyan3': 11849165,
@@ -1133,7 +1133,7 @@ def getX11colorname2RGBdict() -> dict:
 'lightgoldenrod2': 15654018,
 'lightgoldenrod3': 13483632,
 'lightgoldenrod4': 9142604,
-'lightgoldenrodyellow': 16758465,
+'lightgoldenrodyellow': 16448210,
 'lightpink1': 16756409,
 'lightpink2': 15639213,
 'lightpink3': 13470869,
@@ -1142,12 +1142,12 @@ def getX11colorname2RGBdict() -> dict:
 'lightsalmon2': 15635826,
 'lightsalmon3': 13468002,
 'lightsalmon4': 9131842,
-'lightseagreen': 8900346,
+'lightseagreen': 2142890,
 'lightskyblue1': 11592447,
 'lightskyblue2': 10802158,
 'lightskyblue3': 9287373,
 'lightskyblue4': 6323083,
-'lightslateblue': 11584734,
+'lightslateblue': 8679679,
 'lightsteelblue1': 13296127,
 'lightsteelblue2': 12374766,
 'lightsteelblue3': 10663373,
@@ -1178,7 +1178,7 @@ def getX11colorname2RGBdict() -> dict:
 'mediumspringgreen': 64154,
 'mediumturquoise': 4772300,
 'mediumvioletred': 13047173,
-'mediumaquamarine': 12211667,
+'mediumaquamarine': 6737322,
 'mediumorchid1': 14706431,
 'mediumorchid2': 13721582,
 'mediumorchid3': 11817677,
@@ -1187,7 +1187,7 @@ def getX11colorname2RGBdict() -> dict:
 'mediumpurple2': 10451438,
 'mediumpurple3': 9005261,
 'mediumpurple4': 6113163,
-'mediumseagreen': 13047173,
+'mediumseagreen': 3978097,
 'midnightblue': 1644912,
 'mintcream': 16121850,
 'mistyrose': 16770273,
@@ -1229,7 +1229,7 @@ def getX11colorname2RGBdict() -> dict:
 'palegreen': 10025880,
 'paleturquoise': 11529966,
 'palevioletred': 14381203,
-'palegoldenrod': 10025880,
+'palegoldenrod': 15657130,
 'palegreen1': 10157978,
 'palegreen2': 9498256,
 'palegreen3': 8179068,
@@ -1394,27 +1394,27 @@ def getX11RGBfactors() -> dict:
 'aliceblue': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.941176, 0.972549, 1.000000],
 'antiquewhite': [0.980392, 0.921569, 0.843137],
-'antiquewhite1': [0.980392, 0.921569, 0.843137],
-'antiquewhite2': [1.000000, 0.937255, 0.858824],
-'antiquewhite3': [0.933333, 0.874510, 0.800000],
-'antiquewhite4': [0.803922, 0.752941, 0.690196],
+'antiquewhite1': [1.000000, 0.937255, 0.858824],
+'antiquewhite2': [0.933333, 0.874510, 0.800000],
+'antiquewhite3': [0.803922, 0.752941, 0.690196],
+'antiquewhite4': [0.545098, 0.513725, 0.470588],
 'aqua': [0.000000, 1.000000, 1.000000],
 'aquamarine': [0.000000, 1.000000, 1.000000],
 'aquamarine1': [0.498039, 1.000000, 0.831373],
-'aquamarine2': [0.498039, 1.000000, 0.831373],
-'aquamarine3': [0.462745, 0.933333, 0.776471],
-'aquamarine4': [0.400000, 0.803922, 0.666667],
-'azure': [0.270588, 0.545098, 0.454902],
+'aquamarine2': [0.462745, 0.933333, 0.776471],
+'aquamarine3': [0.400000, 0.803922, 0.666667],
+'aquamarine4': [0.270588, 0.545098, 0.454902],
+'azure': [0.941176, 1.000000, 1.000000],
 'azure1': [0.941176, 1.000000, 1.000000],
-'azure2': [0.941176, 1.000000, 1.000000],
-'azure3': [0.878431, 0.933333, 0.933333],
-'azure4': [0.756863, 0.803922, 0.803922],
-'beige': [0.513725, 0.545098, 0.545098],
-'bisque': [0.960784, 0.960784, 0.862745],
+'azure2': [0.878431, 0.933333, 0.933333],
+'azure3': [0.756863, 0.803922, 0.803922],
+'azure4': [0.513725, 0.545098, 0.545098],
+'beige': [0.960784, 0.960784, 0.862745],
+'bisque': [1.000000, 0.894118, 0.768627],
 'bisque1': [1.000000, 0.894118, 0.768627],
-'bisque2': [1.000000, 0.894118, 0.768627],
-'bisque3': [0.933333, 0.835294, 0.717647],
-'bisque4': [0.803922, 0.717647, 0.619608],
+'bisque2': [0.933333, 0.835294, 0.717647],
+'bisque3': [0.803922, 0.717647, 0.619608],
+'bisque4': [0.545098, 0.490196, 0.419608],
 'black': [0.000000, 0.000000, 0.000000],
 'blanchedalmond': [1.000000, 0.921569, 0.803922],
 'blue': [0.000000, 0.000000, 1.000000],
@@ -1484,12 +1484,12 @@ def getX11RGBfactors() -> dict:
 'darkslategrey': [0.184314, 0.309804, 0.309804],
 'darkturquoise': [0.000000, 0.807843, 0.819608],
 'darkviolet': [0.580392, 0.000000, 0.827451],
-'darkblue': [0.721569, 0.525490, 0.043137],
+'darkblue': [0.000000, 0.000000, 0.545098],
 'darkgoldenrod1': [1.000000, 0.725490, 0.058824],
 'darkgoldenrod2': [0.933333, 0.678431, 0.054902],
 'darkgoldenrod3': [0.803922, 0.584314, 0.047059],
 'darkgoldenrod4': [0.545098, 0.396078, 0.031373],
-'darkgray': [0.333333, 0.419608, 0.184314],
+'darkgray': [0.662745, 0.662745, 0.662745],
 'darkolivegreen1': [0.792157, 1.000000, 0.439216],
 'darkolivegreen2': [0.737255, 0.933333, 0.407843],
 'darkolivegreen3': [0.635294, 0.803922, 0.352941],
@@ -1502,17 +1502,17 @@ def getX11RGBfactors() -> dict:
 'darkorchid2': [0.698039, 0.227451, 0.933333],
 'darkorchid3': [0.603922, 0.196078, 0.803922],
 'darkorchid4': [0.407843, 0.133333, 0.545098],
-'darkred': [0.560784, 0.737255, 0.560784],
+'darkred': [0.545098, 0.000000, 0.000000],
 'darkseagreen1': [0.756863, 1.000000, 0.756863],
 'darkseagreen2': [0.705882, 0.933333, 0.705882],
 'darkseagreen3': [0.607843, 0.803922, 0.607843],
 'darkseagreen4': [0.411765, 0.545098, 0.411765],
-'darkslateblue': [0.184314, 0.309804, 0.309804],
+'darkslateblue': [0.282353, 0.239216, 0.545098],
 'darkslategray1': [0.592157, 1.000000, 1.000000],
 'darkslategray2': [0.552941, 0.933333, 0.933333],
 'darkslategray3': [0.474510, 0.803922, 0.803922],
 'darkslategray4': [0.321569, 0.545098, 0.545098],
-'darkslategrey': [0.580392, 0.000000, 0.827451],
+'darkslategrey': [0.184314, 0.309804, 0.309804],
 'deeppink': [1.000000, 0.078431, 0.576471],
 'deepskyblue': [0.000000, 0.749020, 1.000000],
 'deeppink1': [1.000000, 0.078431, 0.576471],
@@ -1819,7 +1819,7 @@ def getX11RGBfactors() -> dict:
 'lightblue2': [0.698039, 0.874510, 0.933333],
 'lightblue3': [0.603922, 0.752941, 0.803922],
 'lightblue4': [0.407843, 0.513725, 0.545098],
-'lightcoral': [0.878431, 1.000000, 1.000000],
+'lightcoral': [0.941176, 0.501961, 0.501961],
 'lightcyan1': [0.878431, 1.000000, 1.000000],
 'lightcyan2': [0.819608, 0.933333, 0.933333],
 'lightcyan3': [0.705882, 0.803922, 0.803922],
@@ -1828,7 +1828,7 @@ def getX11RGBfactors() -> dict:
 'lightgoldenrod2': [0.933333, 0.862745, 0.509804],
 'lightgoldenrod3': [0.803922, 0.745098, 0.439216],
 'lightgoldenrod4': [0.545098, 0.505882, 0.298039],
-'lightgoldenrodyellow': [1.000000, 0.713725, 0.756863],
+'lightgoldenrodyellow': [0.980392, 0.980392, 0.823529],
 'lightpink1': [1.000000, 0.682353, 0.725490],
 'lightpink2': [0.933333, 0.635294, 0.678431],
 'lightpink3': [0.803922, 0.549020, 0.584314],
@@ -1837,12 +1837,12 @@ def getX11RGBfactors() -> dict:
 'lightsalmon2': [0.933333, 0.584314, 0.447059],
 'lightsalmon3': [0.803922, 0.505882, 0.384314],
 'lightsalmon4': [0.545098, 0.341176, 0.258824],
-'lightseagreen': [0.529412, 0.807843, 0.980392],
+'lightseagreen': [0.125490, 0.698039, 0.666667],
 'lightskyblue1': [0.690196, 0.886275, 1.000000],
 'lightskyblue2': [0.643137, 0.827451, 0.933333],
 'lightskyblue3': [0.552941, 0.713725, 0.803922],
 'lightskyblue4': [0.376471, 0.482353, 0.545098],
-'lightslateblue': [0.690196, 0.768627, 0.870588],
+'lightslateblue': [0.517647, 0.439216, 1.000000],
 'lightsteelblue1': [0.792157, 0.882353, 1.000000],
 'lightsteelblue2': [0.737255, 0.823529, 0.933333],
 'lightsteelblue3': [0.635294, 0.709804, 0.803922],
@@ -1873,7 +1873,7 @@ def getX11RGBfactors() -> dict:
 'mediumspringgreen': [0.000000, 0.980392, 0.603922],
 'mediumturquoise': [0.282353, 0.819608, 0.800000],
 'mediumvioletred': [0.780392, 0.082353, 0.521569],
-'mediumaquamarine': [0.729412, 0.333333, 0.827451],
+'mediumaquamarine': [0.400000, 0.803922, 0.666667],
 'mediumorchid1': [0.878431, 0.400000, 1.000000],
 'mediumorchid2': [0.819608, 0.372549, 0.933333],
 'mediumorchid3': [0.705882, 0.321569, 0.803922],
@@ -1882,7 +1882,7 @@ def getX11RGBfactors() -> dict:
 'mediumpurple2': [0.623529, 0.474510, 0.933333],
 'mediumpurple3': [0.537255, 0.407843, 0.803922],
 'mediumpurple4': [0.364706, 0.278431, 0.545098],
-'mediumseagreen': [0.780392, 0.082353, 0.521569],
+'mediumseagreen': [0.235294, 0.701961, 0.443137],
 'midnightblue': [0.098039, 0.098039, 0.439216],
 'mintcream': [0.960784, 1.000000, 0.980392],
 'mistyrose': [1.000000, 0.894118, 0.882353],
@@ -1924,7 +1924,7 @@ def getX11RGBfactors() -> dict:
 'palegreen': [0.596078, 0.984314, 0.596078],
 'paleturquoise': [0.686275, 0.933333, 0.933333],
 'palevioletred': [0.858824, 0.439216, 0.576471],
-'palegoldenrod': [0.596078, 0.984314, 0.596078],
+'palegoldenrod': [0.933333, 0.909804, 0.666667],
 'palegreen1': [0.603922, 1.000000, 0.603922],
 'palegreen2': [0.564706, 0.933333, 0.564706],
 'palegreen3': [0.486275, 0.803922, 0.486275],
-- 
2.43.0


From 2d4eed67f0d7b47f33e233390330d50c5ce660c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 49/79] fix: webgray and x11gray are gray

---
 pythonbmp/X11colordict.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pythonbmp/X11colordict.py b/pythonbmp/X11colordict.py
index 79f17b7..6772871 100644
--- a/pythonbmp/X11colordict.py
+++ b/pythonbmp/X11colordict.py
@@ -671,7 +671,7 @@ def getX11colorname2HSLdict() -> dict:
 'webgrey': (0, 0, 50),
 'webmaroon': (0, 100, 25),
 'webpurple': (300, 100, 25),
-'webgray': (300, 100, 25),
+'webgray': (0, 0, 50),
 'wheat': (39, 77, 83),
 'wheat1': (39, 100, 86),
 'wheat2': (39, 65, 81),
@@ -684,7 +684,7 @@ def getX11colorname2HSLdict() -> dict:
 'x11grey': (0, 0, 75),
 'x11maroon': (338, 57, 44),
 'x11purple': (277, 87, 53),
-'x11gray': (277, 87, 53),
+'x11gray': (0, 0, 75),
 'yellow': (60, 100, 50),
 'yellowgreen': (80, 61, 50),
 'yellow1': (60, 100, 50),
@@ -1367,7 +1367,7 @@ def getX11colorname2RGBdict() -> dict:
 'webgrey': 8421504,
 'webmaroon': 8388608,
 'webpurple': 8388736,
-'webgray': 8388736,
+'webgray': 8421504,
 'wheat': 16113331,
 'wheat1': 16771002,
 'wheat2': 15653038,
@@ -1380,7 +1380,7 @@ def getX11colorname2RGBdict() -> dict:
 'x11grey': 12500670,
 'x11maroon': 11546720,
 'x11purple': 10494192,
-'x11gray': 10494192,
+'x11gray': 12500670,
 'yellow': 16776960,
 'yellowgreen': 10145074,
 'yellow1': 16776960,
@@ -2062,7 +2062,7 @@ def getX11RGBfactors() -> dict:
 'webgrey': [0.501961, 0.501961, 0.501961],
 'webmaroon': [0.501961, 0.000000, 0.000000],
 'webpurple': [0.501961, 0.000000, 0.501961],
-'webgray': [0.501961, 0.000000, 0.501961],
+'webgray': [0.501961, 0.501961, 0.501961],
 'wheat': [0.960784, 0.870588, 0.701961],
 'wheat1': [1.000000, 0.905882, 0.729412],
 'wheat2': [0.933333, 0.847059, 0.682353],
@@ -2075,7 +2075,7 @@ def getX11RGBfactors() -> dict:
 'x11grey': [0.745098, 0.745098, 0.745098],
 'x11maroon': [0.690196, 0.188235, 0.376471],
 'x11purple': [0.627451, 0.125490, 0.941176],
-'x11gray': [0.627451, 0.125490, 0.941176],
+'x11gray': [0.745098, 0.745098, 0.745098],
 'yellow': [1.000000, 1.000000, 0.000000],
 'yellowgreen': [0.603922, 0.803922, 0.196078],
 'yellow1': [1.000000, 1.000000, 0.000000],
-- 
2.43.0


From ba6450c90d4c92885ad36bf2caae570d17f45d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 50/79] fix: zero pad the fraction of the elapsed seconds

---
 pythonbmp/proctimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/proctimer.py b/pythonbmp/proctimer.py
index 4d7a0f0..079615f 100644
--- a/pythonbmp/proctimer.py
+++ b/pythonbmp/proctimer.py
@@ -51,7 +51,7 @@ def hhmmsselaspedtime(inittime: int
         ((f'{str(hrs).zfill(2)}:' + str(mins).zfill(2)) + ':')
         + str(secs).zfill(2)
         + '.'
-    ) + str(ns)
+    ) + str(ns).zfill(9)
 
 
 def functimer(func):
-- 
2.43.0


From e926967faf74c0aac3bd380e7fbec28913e79b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 51/79] fix: the name of the middle ascending range has no
 leading blank

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index b0c657c..bde476b 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -51,7 +51,7 @@ def getdefaultlumrange() -> dict:
     return {'maxdesc': [255, 0],
              'maxasc': [0, 255],
             'middesc': [192, 64],
-            ' midasc': [64, 192],
+            'midasc': [64, 192],
           'upperdesc': [255, 128],
            'upperasc': [128, 255],
           'lowerdesc': [128, 0],
-- 
2.43.0


From 31e241a519c9054cba57c55d1c49b76bf8eb1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 52/79] fix: red is bit 0 and blue bit 2 in the default 4 bit
 palette

---
 pythonbmp/colors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index bde476b..9ce3640 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -261,11 +261,11 @@ def matchRGBtodefault4bitpal(
     b >>= 6
     color = 8 if r > 1 or g > 1 or b > 1 else 0
     if r >= 1:
-        color += 4
+        color += 1
     if g >= 1:
         color += 2
     if b >= 1:
-        color += 1
+        color += 4
     return color
 
 
@@ -370,11 +370,11 @@ def probplotRGBto4bitpal(
     color = 0
     (r, g, b) = rgb
     if round(randint(0, r) / 256) == 1:
-        color += 4
+        color += 1
     if round(randint(0, g) / 256) == 1:
         color += 2
     if round(randint(0, b) / 256) == 1:
-        color += 1
+        color += 4
     r >>= 6
     g >>= 6
     b >>= 6
-- 
2.43.0


From 67baea8c22933ed386dfed6096b6984ef901dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 53/79] fix: last term of the 3x3 determinant

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index a913326..79939a9 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -781,7 +781,7 @@ def det3D(
            a1[2] * a2[0] * a3[1] - \
            a1[0] * a2[2] * a3[1] - \
            a1[1] * a2[0] * a3[2] - \
-           a1[2] * a2[1] * a2[0]
+           a1[2] * a2[1] * a3[0]
 
 
 def cosaffin(u: list[Number],
-- 
2.43.0


From 4feb6339270cf70a6ae7952f380a745e2422af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 54/79] fix: vectors are orthogonal when their dot product is
 zero

---
 pythonbmp/mathlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 79939a9..4c7e22d 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -633,7 +633,7 @@ def isorthogonal(
                 so they are
                 nonorthogonal vectors
     """
-    return vectiszero(mulvect(u, v))
+    return dotprod(u, v) == 0
 
 
 def crossprod3d(
-- 
2.43.0


From 11f3d493f47226dc9844a58e04fdd50f34a2f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 55/79] fix: polar, cylindrical and spherical coordinates in
 every quadrant

---
 pythonbmp/mathlib.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 4c7e22d..2f876cb 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -20,6 +20,7 @@ from math import(
     asin,
     acos,
     atan,
+    atan2,
     cos,
     cosh,
     degrees,
@@ -886,7 +887,7 @@ def rect2sphericalcoord3D(
         phi: float]
     """
     p = vmag(v)
-    return [p, atan(v[1] / v[0]),
+    return [p, atan2(v[1], v[0]),
                acos(v[2] / p)]
 
 
@@ -938,8 +939,8 @@ def rect2cylindricalcoord3D(
              angle: float,
              z: Number]
     """
-    return [vmag(v),
-            atan(v[1] / v[0]),
+    return [vmag(v[:2]),
+            atan2(v[1], v[0]),
             v[2]]
 
 
@@ -998,7 +999,7 @@ def rect2polarcoord2D(
     Returns:
         [magnitude: float, angle: float]
     """
-    return [vmag(v), atan(v[1] / v[0])]
+    return [vmag(v), atan2(v[1], v[0])]
 
 
 def polarcoordangle2D(v:list) -> float:
-- 
2.43.0


From f290d997287894af8c80ef15aa51b9392b14571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 56/79] fix: distance table of lists with repeated vertices

---
 pythonbmp/mathlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/mathlib.py b/pythonbmp/mathlib.py
index 2f876cb..88dd077 100644
--- a/pythonbmp/mathlib.py
+++ b/pythonbmp/mathlib.py
@@ -741,11 +741,11 @@ def distancetable(vertlist: list) -> list:
         list of vertices and distances
     """
     dlist = []
-    for v in vertlist:
+    for i, v in enumerate(vertlist):
         dlist.extend(
-            [vertlist.index(v), vertlist.index(u), dist(u, v)]
-            for u in vertlist
-            if u != v
+            [i, j, dist(u, v)]
+            for j, u in enumerate(vertlist)
+            if i != j
         )
 
     return dlist
-- 
2.43.0


From 0b524099f16f9407f549d06fd46c97ad3f9f6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 57/79] fix: regular polygons of any number of sides

---
 pythonbmp/primitives2D.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 717be41..5cbacc2 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -508,11 +508,9 @@ def floatregpolygonvert(
     """
     v = []
     angle = radians(angle)
-    anginc = 360 // sides
-    maxang = 360
     q = complex(cx, cy)
-    for a in range(0, maxang, anginc):
-        ang = angle + radians(a)
+    for i in range(sides):
+        ang = angle + radians(360 * i / sides)
         z = q - r * complex(sin(ang), cos(ang))
         v.append([z.real, z.imag])
     return v
-- 
2.43.0


From 43532da0f6744352a34af2aa201b6df2d8a462f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 58/79] fix: the inner circle of a spirograph turns backwards

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 5cbacc2..1dd56c9 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -932,7 +932,7 @@ def iterspirograph(
     q = complex(x, y)
     while a < lim:
         z = r * (rect(d, a) + \
-                 rect(e, a * f)) + q
+                 rect(e, -a * f)) + q
         a += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From b74c427234e81a906f4edbe508a0df8445f19614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 59/79] fix: circle involute

---
 pythonbmp/primitives2D.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 1dd56c9..109a4bc 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1061,8 +1061,7 @@ def itercircleinvolute(
     t = 0
     b = complex(x, y)
     while t < lim:
-        z = rect(1, t)
-        z *= a * z * t * 1j
+        z = a * rect(1, t) * (1 - t * 1j)
         t += delta
         z += b
         yield (round(z.real),
-- 
2.43.0


From 7de1f7adb143b6bc2aff8f7e003b8394a63d397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 60/79] fix: the rolling circle of a hypotrochoid turns
 backwards

---
 pythonbmp/primitives2D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 109a4bc..49e754a 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1190,12 +1190,12 @@ def iterhypotrochoid(
         [[x: int, y: int], ...]
     """
     p = a - b
-    d = (a / b) + 1
+    d = (a / b) - 1
     t = 0
     q = complex(x, y)
     while t < lim:
-        z = rect(p, t) - \
-            rect(c, d * t) + q
+        z = rect(p, t) + \
+            rect(c, -d * t) + q
         t += delta
         yield (round(z.real),
                round(z.imag))
-- 
2.43.0


From 5542a5c56652e014909094aaa9e7a5b6fff81750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 61/79] fix: egg curve ends at its length

---
 pythonbmp/primitives2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 49e754a..6df3d57 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -1534,7 +1534,7 @@ def itereggcurve(cx: int, cy: int,
         for x in range(a):
             y = int(((k - 2 * x + \
                       ((_4b * x + \
-            k) ** p).real) ** p).real * \
+            k * k) ** p).real) ** p).real * \
             (x ** p).real / sqrt2)
             if y > 0:
                 px = cx + x - c
-- 
2.43.0


From eec523979573261314475a085b2c3608464befa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 62/79] fix: bezier curves use all control points and reach the
 last

---
 pythonbmp/primitives2D.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index 6df3d57..f5984d5 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -355,23 +355,22 @@ def iterbeziercurve(
         vertices as list[x: int, y: int]
     """
     cnt = len(pntlist)
+    last = cnt - 1
     w = v = pntlist[0]
     klim = cnt << 2
-    for i in range(cnt):
-        if i > cnt - 2:
-            last = i - 1
-            for k in range(klim):
-                u = k / klim
-                v = [0, 0]
-                for j in range(i):
-                    v = addvect(v,
-                         scalarmulvect(
-                                pntlist[j],
-                          _bezierblend(
-                                j, last, u)))
-                yield from iterline(roundvect(v),
-                                    roundvect(w))
-                w = v
+    for k in range(klim + 1):
+        u = k / klim
+        v = [0, 0]
+        for j in range(cnt):
+            v = addvect(v,
+                 scalarmulvect(
+                        pntlist[j],
+                  _bezierblend(
+                        j, last, u)))
+        yield from iterline(roundvect(v),
+                            roundvect(w))
+        w = v
+
 
 
 def beziercurvevert(
-- 
2.43.0


From b11708edd929fed9a908c42bf76fd7a7daa20e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 63/79] fix: plotmultifractal: plot the real values of the
 super ellipse in palette images

---
 pythonbmp/BITMAPlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 1f1bef5..6eed140 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9376,19 +9376,19 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = c
+            bmp[_8bmofhd(bmp, x, y)] = int(c)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 1:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, c % maxcolors)
+            plotxybit(bmp, x, y, int(c) % maxcolors)
     else:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            plotxybit(bmp, x, y, (mcolor - c) % maxcolors)
+            plotxybit(bmp, x, y, (mcolor - int(c)) % maxcolors)
 
 
 def plotmultifractalcomplexpar(bmp: array,
-- 
2.43.0


From f658287e6c0596d08e7b9318a97d9206d0d35f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 64/79] fix: symmetriciconattractorlist: the turning term is
 omega times i z

---
 pythonbmp/fractals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 7dea57a..08682fc 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -2167,7 +2167,7 @@ def symmetriciconattractorlist(
         v[i] = z = (a * abs(z * c) + l + \
         b * (z.real * p.real - \
              z.imag * p.imag)) * z + \
-        (g * p).conjugate() - o * c * 1j
+        (g * p).conjugate() + o * z * 1j
     return v
 
 
-- 
2.43.0


From a65aeb93959d491abc41bd9323d7e0b97e789c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 65/79] fix: iterIFS: start on the attractor, not at the screen
 corner

---
 pythonbmp/fractals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pythonbmp/fractals.py b/pythonbmp/fractals.py
index 08682fc..37849dd 100644
--- a/pythonbmp/fractals.py
+++ b/pythonbmp/fractals.py
@@ -130,8 +130,7 @@ def iterIFS(
     x1, y1, x2, y2 = \
         sortrecpoints(x1, y1, x2, y2)
     (af, p) = IFStransparam
-    x = x1
-    y = y1
+    x = y = 0
     dy = y2 - y1
     (p0, p1, p2) = p[0:3]
     for _ in range(maxiter):
-- 
2.43.0


From fb15a0cd12e35d03464353185e44ed523b0da059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 66/79] fix: 8 bit fractals: points beyond the image are left
 out

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 6eed140..7c826f0 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -9376,7 +9376,7 @@ def plotmultifractal(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = int(c)
+            plotxybit(bmp, x, y, int(c))
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, c) in func(x1, y1, x2, y2, d,
                           domain, maxiter):
@@ -9434,7 +9434,7 @@ def plotmultifractalcomplexpar(bmp: array,
     elif bits == 8 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-            bmp[_8bmofhd(bmp, x, y)] = v
+            plotxybit(bmp, x, y, v)
     elif bits == 4 and len(RGBfactors) == 3:
         for (x, y, v) in func(x1, y1, x2, y2, c, d,
                           domain, maxiter):
-- 
2.43.0


From 934be77b4976f789510b0ceee962e2d5185675c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 67/79] fix: spherevert: the south pole moves with the center

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 2bfbe2a..89a2e39 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -480,7 +480,7 @@ def spherevert(vcen: list[float,
                            radians(phi)]))
             if p not in plist:
                 plist.append(p)
-    p = [0, 0, -r]
+    p = addvect(vcen, [0, 0, -r])
     if p not in plist:
         plist.append(p)
     return plist
-- 
2.43.0


From cb9f195b49f940ee7b664df555fcbf9c18afb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 68/79] fix: spheres show their near side when they are drawn

---
 pythonbmp/solids3D.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 89a2e39..6c3d201 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -542,8 +542,8 @@ def genspheresurfaces(
     i = 0
     for i in range(lpts):
         j = 0 if i == maxp else i + 1
-        surf += [[northpole, npts[j], npts[i]],
-                 [southpole, spts[i], spts[j]]]
+        surf += [[northpole, npts[i], npts[j]],
+                 [southpole, spts[j], spts[i]]]
     if levels > 2:
         mxlv = levels - 1
         for k in range(1, mxlv):
@@ -555,9 +555,9 @@ def genspheresurfaces(
             i = 0
             for i in range(lpts):
                 j = 0 if i == maxp else i + 1
-                surf += [[adjpts[j % maxadjpts],
+                surf += [[pts[j], pts[i],
                           adjpts[i % maxadjpts],
-                          pts[i], pts[j]]]
+                          adjpts[j % maxadjpts]]]
     return surf
 
 
-- 
2.43.0


From bd655e1fa3901d974b69e5df319bee10cff96f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 69/79] fix: tetrahedra and hexahedra show their near sides
 when they are drawn

---
 pythonbmp/solids3D.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 6c3d201..9b23141 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -53,22 +53,22 @@ def getshapesidedict() -> dict:
         dictionary of side or polygon
         definitions for basic solids
     """
-    return {"tetrahedra":((2, 1, 0),
-                          (2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1)),
+    return {"tetrahedra":((0, 1, 2),
+                          (1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3)),
                   "cube":((1, 2, 3, 0),
                           (5, 6, 7, 4),
                           (0, 3, 6, 5),
                           (4, 7, 2, 1),
                           (4, 1, 0, 5),
                           (2, 7, 6, 3)),
-             "hexahedra":((2, 3, 1),
-                          (0, 3, 2),
-                          (3, 0, 1),
-                          (1, 4, 2),
-                          (2, 4, 0),
-                          (1, 0, 4)),
+             "hexahedra":((1, 3, 2),
+                          (2, 3, 0),
+                          (1, 0, 3),
+                          (2, 4, 1),
+                          (0, 4, 2),
+                          (4, 0, 1)),
              "octahedra":((1, 2, 0),
                           (4, 1, 0),
                           (3, 4, 0),
-- 
2.43.0


From 0509e9836d24f5ca8622237e256c4367c80d7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 70/79] fix: tetrahedra, hexahedra and octahedra have sides of
 one length

---
 pythonbmp/solids3D.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 9b23141..71c501c 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -97,9 +97,9 @@ def tetrahedravert(x: float
     x_sqr = x**2
     halfx= x / 2
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, sqrt(3 / 8 * x_sqr)]]
+            [halfx, sqrt(x_sqr / 12), sqrt(2 / 3 * x_sqr)]]
 
 
 def cubevert(x: float
@@ -144,12 +144,13 @@ def hexahedravert(x: float
     """
     x_sqr = x**2
     halfx= x / 2
-    z = sqrt(3 / 8 * x_sqr)
+    y = sqrt(x_sqr / 12)
+    z = sqrt(2 / 3 * x_sqr)
     return [[0, 0, 0],
-            [halfx, sqrt(x_sqr / 2), 0],
+            [halfx, sqrt(3 / 4 * x_sqr), 0],
             [x, 0, 0],
-            [halfx, halfx, z],
-            [halfx, halfx, -z]]
+            [halfx, y, z],
+            [halfx, y, -z]]
 
 
 def octahedravert(x: float
@@ -168,12 +169,13 @@ def octahedravert(x: float
               z: float)
     """
     halfx = x / 2
-    return [[halfx, halfx, halfx],
+    z = sqrt(x ** 2 / 2)
+    return [[halfx, halfx, z],
             [0, 0, 0],
             [x, 0, 0],
             [x, x, 0],
             [0, x, 0],
-            [halfx, halfx, -halfx]]
+            [halfx, halfx, -z]]
 
 
 def decahedvertandsurface(
-- 
2.43.0


From dd1897cae329f49ad8808698d94ba1097b84ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 71/79] fix: decahedvertandsurface: vertices are not rounded to
 whole numbers

---
 pythonbmp/solids3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 71c501c..87b5879 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -196,7 +196,8 @@ def decahedvertandsurface(
               y: float,
               z: float)
     """
-    pts = regpolygonvert(0, 0, x, 5, 0)
+    pts = floatregpolygonvert(
+                0, 0, x, 5, 0)
     z = sqrt((dist(pts[0], pts[1]) ** 2 - x**2))
 
     return [[[0, 0, -z]] + \
-- 
2.43.0


From fcbcbf23bf30a02be34c95fabbb73fdf167355d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 72/79] fix: icosahedvertandsurface: sides of one length in a
 sphere of the given radius

---
 pythonbmp/solids3D.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 87b5879..184d10f 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -235,11 +235,12 @@ def icosahedvertandsurface(
               y: float,
               z: float)
     """
+    r = 2 * x / sqrt(5)
     pts = floatregpolygonvert(
-                0, 0, x, 5, 0)
+                0, 0, r, 5, 0)
     pts1 = floatregpolygonvert(
-                0, 0, x, 5, 36)
-    z = sqrt((dist(pts[0], pts[1]) ** 2 - x**2))
+                0, 0, r, 5, 36)
+    z = sqrt((dist(pts[0], pts[1]) ** 2 - r**2))
     z1 = 2 * x - z
     return [[[0, 0, -z]] + \
              adddimz(pts, 0) + \
-- 
2.43.0


From c3d0bbf861b1c2538013d4fc26376a1293e33277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 73/79] fix: surfplot3Dvertandsurface: rows of the grid when
 the step does not divide the width

---
 pythonbmp/solids3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/solids3D.py b/pythonbmp/solids3D.py
index 184d10f..f33dc8e 100644
--- a/pythonbmp/solids3D.py
+++ b/pythonbmp/solids3D.py
@@ -709,7 +709,7 @@ def surfplot3Dvertandsurface(
         for x in range(x1, x2, step):
             z = fnxy(x, y)
             vlist.append([x, y, z])
-    dx = abs(x2 - x1) // step
+    dx = len(range(x1, x2, step))
     dx1 = dx - 1
     vl = len(vlist)
     for v in vlist:
-- 
2.43.0


From 9f9bbec7c92430d2b0e94fe432c1e1fed518695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 74/79] fix: piechart: both halves of a chart with two halves
 are drawn

---
 pythonbmp/BITMAPlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 7c826f0..f180d02 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12476,8 +12476,8 @@ def piechart(bmp: array,
     if big > -1: #for speed more computions in drawarc
             circle(bmp, x, y, r,
                 alist[big][2], True)
-    for a in alist:
-        if a[4] < 50:
+    for i, a in enumerate(alist):
+        if i != big:
             drawarc(bmp, x, y, r,
                 a[0], a[1], a[2],
                 True, a[2], True)
-- 
2.43.0


From 329f8b838171e9bcfc925f4df7e6677a352ae834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 75/79] fix: XYscatterplot: points outside the axes are left
 out

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index f180d02..33a7732 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7423,6 +7423,8 @@ def XYscatterplot(
         r = v[2]
         w = userdef2Dcooordsys2screenxy(
                 v[0], v[1], XYcoordinfo)
+        if w == [-1, -1]:
+            continue
         if r>1:
             circlevec(bmp, w,
                 setmax(r, 5), v[3], v[4])
-- 
2.43.0


From ae25321b6122b1d62e160f7f68af5b740e439cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 76/79] fix: XYscatterplot: a falling regression line starts on
 the upper border

---
 pythonbmp/BITMAPlib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 33a7732..9bf5e8d 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -7441,6 +7441,11 @@ def XYscatterplot(
                 xmin, ymin, XYcoordinfo)
         w = userdef2Dcooordsys2screenxy(
                 xmax, ymax, XYcoordinfo)
+        if u == [-1, -1]:
+            ymin = XYcoordinfo[5][1]
+            xmin = (ymin - b) / m
+            u = userdef2Dcooordsys2screenxy(
+                    xmin, ymin, XYcoordinfo)
         if w == [-1, -1]:
             ymax = XYcoordinfo[5][1]
             xmax = (ymax - b) / m
-- 
2.43.0


From fb7073d6b9a97ec66fd933083d3d0dfd49967017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 77/79] fix: arcvert: both radii of an arc are always there,
 once

---
 pythonbmp/primitives2D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pythonbmp/primitives2D.py b/pythonbmp/primitives2D.py
index f5984d5..492c9a4 100644
--- a/pythonbmp/primitives2D.py
+++ b/pythonbmp/primitives2D.py
@@ -620,7 +620,6 @@ def arcvert(x: int, y: int, r: int,
         list[[x: int, y: int]]
     """
     v = []
-    tol = 0.03
     c = (x, y)
     sa = radians(startdegangle)
     ea = radians(enddegangle)
@@ -629,9 +628,11 @@ def arcvert(x: int, y: int, r: int,
         a = pc[1]
         if a >= sa and a <= ea:
             v.append(p)
-            if abs(a - sa) < tol or \
-               abs(a - ea) < tol: #for larger arcs tol may be >0.03
-                v.extend(iter(iterline(c, p)))
+    if sa < ea:
+        for a in (sa, ea): #the two radii
+            v.extend(iterline(c,
+                [x + round(r * sin(a)),
+                 y - round(r * cos(a))]))
     return v
 
 
-- 
2.43.0


From 2cc579c78bb81c377affd1221058017c1343f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 78/79] fix: pixelizenxncircregion: blocks larger than the
 image

---
 pythonbmp/BITMAPlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pythonbmp/BITMAPlib.py b/pythonbmp/BITMAPlib.py
index 9bf5e8d..164b00a 100644
--- a/pythonbmp/BITMAPlib.py
+++ b/pythonbmp/BITMAPlib.py
@@ -12706,6 +12706,8 @@ def pixelizenxncircregion(bmp: array,
     Returns:
         byref modified unsigned byte array
     """
+    if n > min(getmaxxy(bmp)):
+        return  # not one whole block
     b = pixelizenxn(bmp, n)
     c = _BMoffsethd
     for (v0, v1) in itercirclepartlineedge(r):
-- 
2.43.0


From 884bfb9eb70663405df822cad7980ae8fcb5abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 79/79] fix: getdefaultbitpal returned the module's own
 palette, so changing it changed all later new images

---
 pythonbmp/colors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonbmp/colors.py b/pythonbmp/colors.py
index 9ce3640..fd222ca 100644
--- a/pythonbmp/colors.py
+++ b/pythonbmp/colors.py
@@ -84,7 +84,7 @@ def getdefaultbitpal(
     Returns:
         list of palette entries
     """
-    return bmpstdpal[bits]
+    return [c[:] for c in bmpstdpal[bits]]
 
 
 def colormix(lum: int,
-- 
2.43.0

