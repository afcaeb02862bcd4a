From 51894f281656fb8646152dc81207f86add526782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:52 +0000
Subject: [PATCH 01/90] fix: mask the whole initial hash so that encoding does
 not index out of range

---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From ef6f1b3d00acbd586e1aec2ff708e1bc5933502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 02/90] fix: allocate the encoder window for the largest
 dictionary, it is reused by later methods

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..8b0016f 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,7 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1)
 
 	return method, nil
 }
-- 
2.43.0


From 0e5aca0ed76e424e8d8b1f6abe7b408779ac7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:53 +0000
Subject: [PATCH 03/90] fix: select the encoder by method number minus one, as
 the decoder does (-lh1- was coded as -lh5-)

---
 slide.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slide.go b/slide.go
index b18ecf5..426d51f 100644
--- a/slide.go
+++ b/slide.go
@@ -193,7 +193,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 }
 
 func (l *Lha) encodeStart(method int) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.encodeStartFix()
 	case 1:
@@ -214,7 +214,7 @@ func (l *Lha) encodeStart(method int) {
 }
 
 func (l *Lha) encodeEnd(method int) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.encodeEndDyn()
 	case 1:
@@ -235,7 +235,7 @@ func (l *Lha) encodeEnd(method int) {
 }
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.outputDyn(int(code), int(pos))
 	case 1:
-- 
2.43.0


From 31b3ad63177fc18e54441916b73c5596babbaa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 04/90] fix: give the dynamic huffman coders their own,
 correctly chosen escape code (-lh1-, -lh2-, and -lh3- after them)

---
 dhuf.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..549a43b 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -15,6 +15,7 @@ var (
 	nn          int
 	nextcount   uint
 	nMax        uint
+	n1Dyn       int /* escape code of the dynamic huffman coders (n1 is the one of shuf.c) */
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
-	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+	n1Dyn = 512
+	if nMax < uint(256+maxmatch-uint16(threshold)+1) {
+		n1Dyn = int(nMax) - 1
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - n1Dyn
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(n1Dyn)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == n1Dyn {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
-- 
2.43.0


From bb21e30639dec8277c91811445ef11d14daa1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 05/90] fix: write the tail of -lh1- codes longer than 16 bits
 from their leftmost bits

---
 dhuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhuf.go b/dhuf.go
index 549a43b..a7a57ac 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -300,7 +300,7 @@ func (l *Lha) encodeCDyn(c uint) {
 		_ = l.putcode(byte(cnt), uint16(bits>>16))
 	} else {
 		_ = l.putcode(16, uint16(bits>>16))
-		_ = l.putbits(byte(cnt-16), uint16(bits))
+		_ = l.putcode(byte(cnt-16), uint16(bits))
 	}
 	if d >= 0 {
 		_ = l.putbits(8, uint16(d))
-- 
2.43.0


From 64d5d2dbbf2c1547c88d92515c73dd44a7048326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 06/90] fix: set up the position coder for the -lh4- dictionary
 size too

---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..4d7a657 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From 3e07c08fde2998b00be7895b42376e9cf855715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:00 +0000
Subject: [PATCH 07/90] fix: test the sign bit of the 16-bit code when walking
 the -lh1-/-lh3- trees

---
 shuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..1f86221 100644
--- a/shuf.go
+++ b/shuf.go
@@ -154,7 +154,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(12)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if int16(i) < 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
@@ -186,7 +186,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(8)
 		i = int(l.bitbuf)
 		for {
-			if i < 0 {
+			if int16(i) < 0 {
 				j = int(right[j])
 			} else {
 				j = int(left[j])
-- 
2.43.0


From a41e1db93dac8569c79e9f48cc2e18b38070cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 08/90] fix: build the -lh3- position table over all of its
 codes

---
 shuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuf.go b/shuf.go
index 1f86221..60362bb 100644
--- a/shuf.go
+++ b/shuf.go
@@ -144,7 +144,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(Np_, &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
-- 
2.43.0


From 810d7c5e0d0edf85515dc0d34957043eb6293d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:01 +0000
Subject: [PATCH 09/90] fix: start -lh3- decoding with a fresh block, whatever
 was decoded before

---
 shuf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuf.go b/shuf.go
index 60362bb..dc0b3cb 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
-- 
2.43.0


From e95eef26f9fee0f53e1d93b5aa258ef9af694d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:02 +0000
Subject: [PATCH 10/90] fix: follow the left or the right branch of -pm2-
 trees, not both

---
 pmtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 2d767892a237984b3e14e474cd082675d2190a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 11/90] fix: copy exactly the requested number of bytes of
 stored data and compute their CRC

---
 util.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/util.go b/util.go
index 9c2ee72..fc29dcb 100644
--- a/util.go
+++ b/util.go
@@ -40,26 +40,21 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	for size > 0 {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
-
-		if xsize == 0 {
-			break
-		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
+		xsize, err = io.ReadFull(*f1, buf[:min(size, buffersize)])
+		if err != nil {
+			return rsize, fmt.Errorf("file read error :%v", err.Error())
 		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
+		_, err = (*f2).Write(buf[:xsize])
 		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+			return rsize, fmt.Errorf("file write error :%v", err.Error())
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
-			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
-		}
+		*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		rsize += xsize
+		size -= xsize
 	}
 	return rsize, nil
 }
-- 
2.43.0


From 84c3a475c67743cd3a7168791d04e2ee3c3ed3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:35 +0000
Subject: [PATCH 12/90] fix: do not write stored data to the output in verify
 mode

---
 extract.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extract.go b/extract.go
index 1cf021a..02687f7 100644
--- a/extract.go
+++ b/extract.go
@@ -83,6 +83,9 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
+		if VerifyMode {
+			outfp = io.Discard
+		}
 		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
 	} else {
 		mode := "Melting "
-- 
2.43.0


From 5430835cc475c4d19664328a4b2bab46c6ab6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:10 +0000
Subject: [PATCH 13/90] fix: report read and write errors met while encoding

---
 append.go | 13 ++++++++++---
 bitio.go  |  3 ++-
 lha.go    |  7 +++++++
 slide.go  |  6 ++++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/append.go b/append.go
index 8b0016f..1230520 100644
--- a/append.go
+++ b/append.go
@@ -24,6 +24,7 @@ const (
 func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_size_var *int, packed_size_var *int, name []byte, hdr_method []byte) (uint, error) {
 	var method = -1
 	var crc uint
+	var err error
 	inter := &interfacing{}
 
 	if method < 0 {
@@ -40,17 +41,23 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		crc, err = l.encode(inter)
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
 		*packed_size_var = *original_size_var
 	}
+	if err != nil {
+		return crc, err
+	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 0
+	if *original_size_var != 0 {
+		indice = ((*packed_size_var * 100) / *original_size_var)
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/bitio.go b/bitio.go
index caa3a96..8c56407 100644
--- a/bitio.go
+++ b/bitio.go
@@ -62,7 +62,8 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				l.fail(fmt.Errorf("write error in bitio.c(putcode) :%v", err.Error()))
+				return l.codecErr
 			}
 			l.compsize++
 		} else {
diff --git a/lha.go b/lha.go
index a387124..8b76cbe 100644
--- a/lha.go
+++ b/lha.go
@@ -71,6 +71,13 @@ type Lha struct {
 	newArchiveNameBuffer []byte
 	temporaryName        string
 	backupArchiveName    []byte
+	codecErr             error /* first error met by the running encoder or decoder */
+}
+
+func (l *Lha) fail(err error) {
+	if l.codecErr == nil {
+		l.codecErr = err
+	}
 }
 
 func NewLha(archivename string) *Lha {
diff --git a/slide.go b/slide.go
index 426d51f..c901acd 100644
--- a/slide.go
+++ b/slide.go
@@ -277,6 +277,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
 		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		l.fail(err)
 	}
 
 	l.remainder += uint(n)
@@ -399,6 +400,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.compsize = 0
 	count = 0
 	l.unpackable = false
+	l.codecErr = nil
 
 	initializeCrc(&crc)
 
@@ -428,7 +430,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codecErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -463,7 +465,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.codecErr
 }
 
 func initSlide() {
-- 
2.43.0


From 9f5079d20b9f2be05773a8cfd007414c64eb1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:11 +0000
Subject: [PATCH 14/90] fix: restore the quiet flag when storing fails

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index fc29dcb..6b0dd99 100644
--- a/util.go
+++ b/util.go
@@ -66,12 +66,12 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 	save_quiet = Quiet
 	Quiet = true
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
+	Quiet = save_quiet
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From b016a61afce281e8fb72e96aa965b1462451329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:33 +0000
Subject: [PATCH 15/90] fix: note every decoding error, stop there, and never
 read past the compressed data of the file

---
 bitio.go   | 23 +++++++++++++++--------
 extract.go | 10 ++++++++--
 lha.go     |  1 +
 slide.go   | 17 +++++++++++++----
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/bitio.go b/bitio.go
index 8c56407..b15bf64 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,7 +2,11 @@ package lha
 
 import (
 	"fmt"
-	"os"
+	"io"
+)
+
+const (
+	maxOverrun = 4 /* zero bytes the decoders may read past the compressed data */
 )
 
 /* ------------------------------------------------------------------------ */
@@ -23,12 +27,17 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				l.fail(fmt.Errorf("cannot read stream :%v", err))
 			}
 			l.subbitbuf = c[0]
 		} else {
+			/* the bit buffer legitimately reads a little past the end */
+			l.overrun++
+			if l.overrun > maxOverrun {
+				l.fail(fmt.Errorf("compressed data are truncated"))
+			}
 			l.subbitbuf = 0
 		}
 		l.bitcount = charBit
@@ -36,16 +45,13 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 	l.bitcount -= n
 	l.bitbuf = (l.bitbuf << uint16(n)) + uint16(l.subbitbuf>>(charBit-n))
 	l.subbitbuf <<= n
-	return nil
+	return l.codecErr
 }
 
 func (l *Lha) getbits(n byte) uint16 {
 	var x uint16 = l.bitbuf >> (2*charBit - n)
 
-	err := l.fillbuf(n)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "fillbuf error :%v\n", err.Error())
-	}
+	_ = l.fillbuf(n)
 	return x
 }
 
@@ -86,6 +92,7 @@ func (l *Lha) initGetbits( /* void */ ) error {
 	l.bitbuf = 0
 	l.subbitbuf = 0
 	l.bitcount = 0
+	l.overrun = 0
 	return l.fillbuf(2 * charBit)
 }
 
diff --git a/extract.go b/extract.go
index 02687f7..3382b32 100644
--- a/extract.go
+++ b/extract.go
@@ -20,6 +20,10 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		crc   uint
 		inter interfacing
 	)
+	l.codecErr = nil
+	/* never read more than the compressed data of this file */
+	limited := &io.LimitedReader{R: infp, N: int64(packed_size)}
+	infp = limited
 	inter.method = method
 	inter.infile = infp
 	inter.outfile = outfp
@@ -86,7 +90,9 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		if VerifyMode {
 			outfp = io.Discard
 		}
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		if _, err := copyfile(&infp, &outfp, original_size, 2, &crc); err != nil {
+			l.fail(err)
+		}
 	} else {
 		mode := "Melting "
 		if VerifyMode {
@@ -98,8 +104,8 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 		}
 
 		crc = l.decode(&inter)
-		*read_sizep = inter.readSize
 	}
+	*read_sizep = packed_size - int(limited.N)
 	mode := "Melted  "
 	if VerifyMode {
 		mode = "Tested  "
diff --git a/lha.go b/lha.go
index 8b76cbe..4c50627 100644
--- a/lha.go
+++ b/lha.go
@@ -72,6 +72,7 @@ type Lha struct {
 	temporaryName        string
 	backupArchiveName    []byte
 	codecErr             error /* first error met by the running encoder or decoder */
+	overrun              int   /* bytes read past the end of the compressed data */
 }
 
 func (l *Lha) fail(err error) {
diff --git a/slide.go b/slide.go
index c901acd..15dc3aa 100644
--- a/slide.go
+++ b/slide.go
@@ -141,7 +141,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.codecErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
 		if c < 256 {
 			if l.DumpLzss {
@@ -155,7 +155,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 			dtext[l.loc] = byte(c)
 			l.loc++
 			if int(l.loc) == dicsiz {
-				_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+				if err := l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile); err != nil {
+					l.fail(err)
+				}
 				l.loc = 0
 			}
 			decodeCount++
@@ -177,14 +179,21 @@ func (l *Lha) decode(inter *interfacing) uint {
 				dtext[l.loc] = byte(c)
 				l.loc++
 				if int(l.loc) == dicsiz {
-					_ = l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile)
+					if err := l.fwriteCrc(&crc, dtext, dicsiz, &l.outfile); err != nil {
+						l.fail(err)
+					}
 					l.loc = 0
 				}
 			}
 		}
 	}
 	if l.loc != 0 {
-		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
+		if err := l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile); err != nil {
+			l.fail(err)
+		}
+	}
+	if decodeCount > l.origsize {
+		l.fail(fmt.Errorf("data decoded are longer than the original size"))
 	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
-- 
2.43.0


From 7d748aae2885d5827e3662bc3cc682591ba5fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 16/90] fix: reject malformed huffman tables instead of
 indexing out of range or decoding with stale ones

---
 huf.go     | 10 +++++++---
 maketbl.go |  8 ++++----
 shuf.go    |  8 ++++++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/huf.go b/huf.go
index 4d7a657..d34c2ff 100644
--- a/huf.go
+++ b/huf.go
@@ -384,7 +384,9 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		if err := makeTable(nn, &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
@@ -433,7 +435,7 @@ func (l *Lha) readCLen( /* void */ ) {
 					}
 				}
 				c--
-				for c >= 0 {
+				for c >= 0 && i < int16(Nc) {
 					cLen[i] = 0
 					i++
 					c--
@@ -447,7 +449,9 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		if err := makeTable(int16(Nc), &cLen, 12, &cTable); err != nil {
+			l.fail(err)
+		}
 	}
 }
 
diff --git a/maketbl.go b/maketbl.go
index e9d06bd..38fd033 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if (total != 0 && total != 0x10000) || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
diff --git a/shuf.go b/shuf.go
index dc0b3cb..afc321d 100644
--- a/shuf.go
+++ b/shuf.go
@@ -92,7 +92,9 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	if err := makeTable(int16(n1), &cLen, 12, &cTable); err != nil {
+		l.fail(err)
+	}
 }
 
 /* ------------------------------------------------------------------------ */
@@ -145,7 +147,9 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(Np_, &ptLen, 8, &ptTable)
+		if err := makeTable(Np_, &ptLen, 8, &ptTable); err != nil {
+			l.fail(err)
+		}
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
-- 
2.43.0


From 4d0d9cdc51c6f4a40b2879a06cfe90c9be4d2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:35 +0000
Subject: [PATCH 17/90] fix: stop on malformed -pm2- trees instead of walking
 them for ever

---
 pm.go     |  3 +--
 pmtree.go | 10 ++++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pm.go b/pm.go
index 880211f..6953189 100644
--- a/pm.go
+++ b/pm.go
@@ -2,7 +2,6 @@ package lha
 
 import (
 	"fmt"
-	"os"
 )
 
 /***********************************************************
@@ -105,7 +104,7 @@ func (l *Lha) decodeCPm2() uint16 {
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		l.fail(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..360732d 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,10 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		if err := treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]); err != nil {
+			l.fail(err)
+			treeSetsingle(&tree1, 0)
+		}
 	}
 }
 
@@ -81,7 +84,10 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			if err := treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]); err != nil {
+				l.fail(err)
+				treeSetsingle(&tree2, 0)
+			}
 		}
 	}
 	// Note: count == 0 is possible!
-- 
2.43.0


From 8091990198c297e55e714971c1f5a4b90e4c8d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:35 +0000
Subject: [PATCH 18/90] fix: forget the tables and trees of the stream decoded
 before when a decoder starts

---
 huf.go   | 20 ++++++++++++++++++++
 pm.go    |  2 ++
 slide.go |  1 +
 3 files changed, 23 insertions(+)

diff --git a/huf.go b/huf.go
index d34c2ff..6f5df75 100644
--- a/huf.go
+++ b/huf.go
@@ -319,6 +319,26 @@ func (l *Lha) encodeEndSt1( /* void */ ) {
 	}
 }
 
+/* forget the tables of the stream decoded before */
+func clearTables() {
+	for i := range left {
+		left[i] = 0
+		right[i] = 0
+	}
+	for i := range cTable {
+		cTable[i] = 0
+	}
+	for i := range ptTable {
+		ptTable[i] = 0
+	}
+	for i := range cLen {
+		cLen[i] = 0
+	}
+	for i := range ptLen {
+		ptLen[i] = 0
+	}
+}
+
 func min(a, b int) int {
 	if a > b {
 		return b
diff --git a/pm.go b/pm.go
index 6953189..4288226 100644
--- a/pm.go
+++ b/pm.go
@@ -48,6 +48,8 @@ func (l *Lha) decodeStartPm2() {
 	histInit()
 	nextcount = 0
 	lastupdate = 0
+	treeSetsingle(&tree1, 0)
+	treeSetsingle(&tree2, 0)
 	l.getbits(1) /* discard bit */
 }
 
diff --git a/slide.go b/slide.go
index 15dc3aa..c637443 100644
--- a/slide.go
+++ b/slide.go
@@ -133,6 +133,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	   If the option "--extract-broken-archive" specified, extract
 	   the broken archive made by old LHa for UNIX. */
 
+	clearTables()
 	l.decodeMethodStart(inter.method)
 	dicsiz1 = uint(dicsiz) - 1
 	adjust = 256 - uint(threshold)
-- 
2.43.0


From 4d8031486234af7303f164ba5ca30a114905498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:57 +0000
Subject: [PATCH 19/90] fix: report truncated -lz5- data instead of decoding
 zeros

---
 larc.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..cbf6420 100644
--- a/larc.go
+++ b/larc.go
@@ -1,6 +1,9 @@
 package lha
 
-import "io"
+import (
+	"fmt"
+	"io"
+)
 
 /* ------------------------------------------------------------------------ */
 /* LHa for UNIX                                                             */
@@ -42,31 +45,25 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 
 /* ------------------------------------------------------------------------ */
 /* lz5 */
+func (l *Lha) getcLz5() int {
+	var b [1]byte
+	if _, err := io.ReadFull(l.infile, b[:]); err != nil {
+		l.fail(fmt.Errorf("cannot read stream :%v", err))
+	}
+	return int(b[0])
+}
+
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = l.getcLz5()
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = l.getcLz5()
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = l.getcLz5()
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
-- 
2.43.0


From a76187a6bc6d163aca394a57169406744263b956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:57 +0000
Subject: [PATCH 20/90] fix: fill the whole tail of the -lz5- dictionary with
 spaces

---
 larc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larc.go b/larc.go
index cbf6420..8e8d59c 100644
--- a/larc.go
+++ b/larc.go
@@ -101,7 +101,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
-- 
2.43.0


From 4379fdc21989cd9c09c6b6084c087bf764fb080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:10 +0000
Subject: [PATCH 21/90] fix: read headers in full, a short read is not the end
 of the archive

---
 header.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..b295d86 100644
--- a/header.go
+++ b/header.go
@@ -312,8 +312,8 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		if len(data) < l.HeaderSize {
 			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
-		if err != nil || nb == 0 {
+		_, err := io.ReadFull(*fp, data[:l.HeaderSize])
+		if err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
 		extType = int(getByte())
@@ -492,9 +492,9 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
-	if err != nil || nb == 0 {
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -611,8 +611,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -711,8 +711,8 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
-	if err != nil || n == 0 {
+	n, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel2HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -749,7 +749,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	padding--
 	for padding != 0 {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
 			return err, false
 		}
@@ -798,8 +798,8 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
-	if err != nil || nb == 0 {
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
@@ -860,7 +860,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -868,8 +868,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
-	if err != nil || nb == 0 {
+	_, err = io.ReadFull(*fp, data[1:commonHeaderSize])
+	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
 
-- 
2.43.0


From 8257ed93b73da622e2d9765d5e40bb549f73086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 22/90] fix: compute the CRC of level 2 and 3 headers over the
 bytes of the base header

---
 header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/header.go b/header.go
index b295d86..d7d6a16 100644
--- a/header.go
+++ b/header.go
@@ -711,7 +711,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel2HeaderSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel2HeaderSize])
 	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -735,7 +735,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(getPtr))
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -798,7 +798,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
+	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
 	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -827,7 +827,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(getPtr))
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
-- 
2.43.0


From e7a4d321a8318aa31eb99197b37cbd33c7047cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 23/90] fix: read the padding byte of level 2 headers once, and
 only if there is one

---
 header.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/header.go b/header.go
index d7d6a16..6a52abf 100644
--- a/header.go
+++ b/header.go
@@ -746,8 +746,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding > 0; padding-- {
 		buf := make([]byte, 1)
 		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-- 
2.43.0


From 031f3add56b97bbb44fe9f698447d08d96a7b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:12 +0000
Subject: [PATCH 24/90] fix: reject level 3 headers whose size field is not 4
 bytes long

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 6a52abf..f245ee3 100644
--- a/header.go
+++ b/header.go
@@ -797,6 +797,9 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
 	_, err := io.ReadFull(*fp, data[commonHeaderSize:iLevel3HeaderSize])
 	if err != nil {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
-- 
2.43.0


From 716ade922176f2f9a4a284d72b3a5e2fe9d88567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:12 +0000
Subject: [PATCH 25/90] fix: parse each extended header by its own size, and
 the group, user, ids and directory they hold

---
 header.go | 65 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/header.go b/header.go
index f245ee3..cc4804a 100644
--- a/header.go
+++ b/header.go
@@ -297,26 +297,30 @@ func wintimeToUnixStamp() uint64 {
 
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
-	var nameLength int
-	dirname := make([]byte, FilenameLength)
-	var dirLength, i int
+	var dirname []byte
 	wholeSize := headerSize
-	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if len(data) < headerSize {
+			return fmt.Errorf("header size (%d) too large", headerSize), 0
+		}
+		length := headerSize - n /* size of the contents */
+		if length < 0 {
+			return fmt.Errorf("header size (%d) too small", headerSize), 0
 		}
-		_, err := io.ReadFull(*fp, data[:l.HeaderSize])
+		_, err := io.ReadFull(*fp, data[:headerSize])
 		if err != nil {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
-		extType = int(getByte())
+		extType := getByte()
+		if length < minExtendedLength[extType] {
+			return fmt.Errorf("extended header 0x%.2x is too short", extType), 0
+		}
 		switch extType {
 		case 0:
 			l.HeaderCrc = uint(getWord())
@@ -324,14 +328,13 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, _ = getBytes(length, length)
+			l.Name = append(l.Name, 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			/* directory */
+			dirname, _ = getBytes(length, length)
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -348,20 +351,21 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 				l.UnixLastModifiedStamp = int64(wintimeToUnixStamp())
 			}
 			skipBytes(8) /* last access time is ignored */
-		case 0x42:
-			skipBytes(8)
-			skipBytes(8)
 		case 0x50:
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, _ = getBytes(length, length)
+			l.Group = append(l.Group, 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, _ = getBytes(length, length)
+			l.User = append(l.User, 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -385,12 +389,12 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			   0xfe: extended attribute - platform information(another opinion)
 			   0xff: extended attribute - permission, owner-id and timestamp
 			         (level 3 on UNLHA32) */
-			skipBytes(headerSize - n)
 		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
+		if hcrc != nil {
+			*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
 		}
 
+		getPtr = headerSize - l.SizeFieldLength
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
 			wholeSize += headerSize
@@ -400,9 +404,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	/* concatenate dirname and filename */
+	if len(dirname) > 0 {
+		l.Name = append(dirname, l.Name...)
+	}
+
 	return nil, wholeSize
 }
 
+/* contents needed by the extended headers of fixed layout */
+var minExtendedLength = map[byte]int{0: 2, 0x40: 2, 0x41: 24, 0x50: 2, 0x51: 4, 0x54: 4}
+
 const (
 	iHeaderSize     = 0  /* level 0,1,2   */
 	iHeaderChecksum = 1  /* level 0,1     */
@@ -648,9 +660,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	}
 
 	extendSize = getWord()
-	var trash uint
 	if extendSize > 0 {
-		err, extendSize = l.getExtendedHeader(fp, extendSize, &trash)
+		err, extendSize = l.getExtendedHeader(fp, extendSize, nil)
 		if err != nil || extendSize == -1 {
 			return err, false
 		}
-- 
2.43.0


From 0b139de21de7b9afe892cf745e98cd90d8035e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:08 +0000
Subject: [PATCH 26/90] fix: join the directory up to its end of string with
 the file name

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index cc4804a..5adefaa 100644
--- a/header.go
+++ b/header.go
@@ -406,7 +406,7 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 
 	/* concatenate dirname and filename */
 	if len(dirname) > 0 {
-		l.Name = append(dirname, l.Name...)
+		l.Name = append(dirname[:lengthOfStringInByte(dirname)], l.Name...)
 	}
 
 	return nil, wholeSize
-- 
2.43.0


From da540b4740bbc69ae5175ace5c29fbf325c1d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:08 +0000
Subject: [PATCH 27/90] fix: keep the last character of names in level 1
 headers, which may also be empty

---
 header.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 5adefaa..3a32f2d 100644
--- a/header.go
+++ b/header.go
@@ -610,7 +610,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	var extendSize int
 	var checksum int
 	var nameLength int
-	var i, dummy int
+	var dummy int
 
 	l.SizeFieldLength = 2 /* in bytes */
 	l.HeaderSize = int(getByte())
@@ -642,8 +642,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	l.Name, _ = getBytes(nameLength, nameLength)
+	l.Name = append(l.Name, 0)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -655,6 +655,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	l.ExtendType = getByte()
 
 	dummy = headerSize + 2 - nameLength - iLevel1HeaderSize
+	if dummy < 0 {
+		return fmt.Errorf("invalid header size (LHarc file ?)"), false
+	}
 	if dummy > 0 {
 		skipBytes(dummy) /* skip old style extend header */
 	}
-- 
2.43.0


From f49c333ea416c0f04287e2dfe07365163e385679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:09 +0000
Subject: [PATCH 28/90] fix: reject level 1 headers whose skip size does not
 cover their extended headers

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 3a32f2d..cbd0969 100644
--- a/header.go
+++ b/header.go
@@ -674,6 +674,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid skip size (LHarc file ?)"), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
-- 
2.43.0


From eb7848308cfafe914015f39043c9a14d1812599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:10 +0000
Subject: [PATCH 29/90] fix: count the size and checksum bytes in the size of
 every level 0 header

---
 header.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index cbd0969..3e42154 100644
--- a/header.go
+++ b/header.go
@@ -490,7 +490,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	var extendSize int
 	var checksum int
 	var nameLength int
-	var i int
 
 	l.SizeFieldLength = 2 /* in bytes */
 	l.HeaderSize = int(getByte())
@@ -521,14 +520,14 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 	l.Attribute = getByte() /* MS-DOS attribute */
 	l.HeaderLevel = getByte()
 	nameLength = int(getByte())
-	l.Name, i = getBytes(nameLength+1, len(l.Name)) // sizeof l.name
-	l.Name[i-1] = 0
-	getPtr--
+	l.Name, _ = getBytes(nameLength, nameLength)
+	l.Name = append(l.Name, 0)
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
 	l.UnixGid = 0
 	l.UnixUID = 0
 
+	l.HeaderSize += 2
 	extendSize = headerSize + 2 - nameLength - 24
 
 	if extendSize < 0 {
@@ -569,7 +568,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		skipBytes(extendSize)
 	}
 
-	l.HeaderSize += 2
 	return nil, true
 }
 
-- 
2.43.0


From 1b31429c38926fe857110db562fa2243ed2b9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:10 +0000
Subject: [PATCH 30/90] fix: convert the 0xff path separators of file names

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 3e42154..54a4465 100644
--- a/header.go
+++ b/header.go
@@ -1003,7 +1003,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From e83cdb2629dde3e1f71ff66ce945c4dcbeddd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 31/90] fix: split symbolic links into the name of the link and
 its target

---
 header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 54a4465..8ff92ad 100644
--- a/header.go
+++ b/header.go
@@ -979,7 +979,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			l.Realname = append([]byte{}, l.Name[p+1:]...)
+			l.Name = append(append([]byte{}, l.Name[:p]...), 0)
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
-- 
2.43.0


From d53f35f2dff7304ec5d50aa825ca43892a2c4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 32/90] fix: read and write the generic time stamps of level 0
 and 1 headers as MS-DOS times

---
 header.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 8ff92ad..ae39643 100644
--- a/header.go
+++ b/header.go
@@ -216,13 +216,18 @@ func putBytes(buf []byte, len int) {
 	}
 }
 
-// nolint: unused, deadcode
 func subbits(n, off, len int) int {
 	return (((n) >> (off)) & ((1 << (len)) - 1))
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	return time.Date(subbits(int(t), 25, 7)+1980,
+		time.Month(subbits(int(t), 21, 4)),
+		subbits(int(t), 16, 5),
+		subbits(int(t), 11, 5),
+		subbits(int(t), 5, 6),
+		subbits(int(t), 0, 5)*2,
+		0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +244,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From a22e58a60f26b8351350c723fc3a3769113602b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:12 +0000
Subject: [PATCH 33/90] fix: write headers of symbolic links whose name has no
 | char, and reject the others

---
 header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index ae39643..00541b5 100644
--- a/header.go
+++ b/header.go
@@ -1172,14 +1172,14 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+		name := hdr.Name[:lengthOfStringInByte(hdr.Name)]
+		if strings.IndexByte(string(name), '|') != -1 {
+			return fmt.Errorf("symlink name \"%s\" contains '|' char", name)
 		}
-		pathname = append(pathname, hdr.Name...)
+		pathname = append(pathname, name...)
 		pathname = append(pathname, '|')
 		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
-- 
2.43.0


From 7235e3df37117878e300cb5d80c28aa8fba82c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:12 +0000
Subject: [PATCH 34/90] fix: write user and group names without their padding

---
 header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/header.go b/header.go
index 00541b5..661715f 100644
--- a/header.go
+++ b/header.go
@@ -1226,15 +1226,15 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixGid))
 	putWord(int(l.UnixUID))
 
-	if l.Group[0] != 0 {
-		length := len(l.Group)
+	if lengthOfStringInByte(l.Group) != 0 {
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
-	if l.User[0] != 0 {
-		length := len(l.User)
+	if lengthOfStringInByte(l.User) != 0 {
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
-- 
2.43.0


From 4988945b28d3dd8409694d6a91670ef187e3e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:13 +0000
Subject: [PATCH 35/90] fix: write well-formed file name and directory headers
 at level 2

---
 header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 661715f..5e7d0e2 100644
--- a/header.go
+++ b/header.go
@@ -1406,14 +1406,14 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1456,8 +1456,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From 984b8e3a4ca0bca8d145b238f96c09875af9de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:13 +0000
Subject: [PATCH 36/90] fix: write level 1 headers instead of slicing out of
 range

---
 header.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/header.go b/header.go
index 5e7d0e2..c3eb90f 100644
--- a/header.go
+++ b/header.go
@@ -1307,16 +1307,16 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := strings.LastIndexByte(string(pathname), lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1353,9 +1353,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = extendHeaderTop - 2
 
 	/* write filename and dirname */
 
@@ -1377,12 +1376,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
-- 
2.43.0


From 5d487f715aa22c6e4296fe460571a5747093b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:14 +0000
Subject: [PATCH 37/90] fix: report headers too long to be written

---
 header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/header.go b/header.go
index c3eb90f..1b5e53a 100644
--- a/header.go
+++ b/header.go
@@ -1195,6 +1195,11 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		(archiveDelim),
 		filenameCase)
 
+	/* 100 for the fixed part of any header */
+	if lengthOfStringInByte(pathname)+lengthOfStringInByte(hdr.User)+lengthOfStringInByte(hdr.Group)+100 > len(data) {
+		return fmt.Errorf("the length of pathname \"%s\" is too long", pathname)
+	}
+
 	switch hdr.HeaderLevel {
 	case 0:
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
-- 
2.43.0


From ed38781a1600c9f02da8e40a2f46ae2b14391fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:23 +0000
Subject: [PATCH 38/90] fix: keep the whole name of the file to add in its
 header

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 1b5e53a..a353aba 100644
--- a/header.go
+++ b/header.go
@@ -90,7 +90,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.Attribute = genericAttribute
 	hdr.HeaderLevel = byte(l.HeaderLevel)
 	filename := filepath.Base(name)
-	copy(hdr.Name[:], filename)
+	hdr.Name = append([]byte(filename), 0)
 	hdr.Crc = 0x0000
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
-- 
2.43.0


From 2a50db48383df5728c98cedc51c537140aebb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:23 +0000
Subject: [PATCH 39/90] fix: record the type and the permissions of the file
 that is added

---
 header.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/header.go b/header.go
index a353aba..a7efa0a 100644
--- a/header.go
+++ b/header.go
@@ -95,34 +95,26 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	hdr.ExtendType = ExtendUnix
 	hdr.UnixLastModifiedStamp = vStat.ModTime().Unix()
 
-	info, err := os.Stat(name)
-	if err != nil {
-		fmt.Fprintf(os.Stderr, "Error while getting informations from %s: error :%v\n", name, err)
-		info = vStat
-	}
-
 	// we are not in linux, this won't work anyway in windows,
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileRegular)
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
-		hdr.UnixMode += 40000
+		hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileDirectory)
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileSymlink)
 		realname, err := os.Readlink(name)
 		if err == nil {
-			copy(hdr.Realname, []byte(realname))
+			hdr.Realname = append([]byte(realname), 0)
 		} else {
 			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
 		}
-- 
2.43.0


From 1caca173e5208f322a424777c359e435558860c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:24 +0000
Subject: [PATCH 40/90] fix: write the header of an added file at its own
 place, rewind both files before storing, and report errors

---
 lhext.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/lhext.go b/lhext.go
index 97ac92d..88b44d5 100644
--- a/lhext.go
+++ b/lhext.go
@@ -298,7 +298,17 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	headerPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err := WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
+	dataPos, err := (*nafp).(*os.File).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -312,17 +322,25 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
 	if vPackedSize < vOriginalSize {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
-		var err error
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = (*nafp).(*os.File).Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
 		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return fmt.Errorf("cannot store file error :%v", err.Error())
 		}
 		//}
 
@@ -334,11 +352,15 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
-	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	// go back to the header to set the new one
+	if _, err = (*nafp).(*os.File).Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = (*nafp).(*os.File).Seek(0, io.SeekEnd)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-- 
2.43.0


From 2c25b5d07559bb40f6079aeaa8464c9831ac7e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:52 +0000
Subject: [PATCH 41/90] fix: name the backup and the standard archive of a
 self-extracting one, and keep the archive while it is backed up

---
 lha.go   | 26 +++++++++++---------------
 lhext.go | 42 +++++++++++++++---------------------------
 macro.go |  3 +--
 3 files changed, 27 insertions(+), 44 deletions(-)

diff --git a/lha.go b/lha.go
index 4c50627..c9a2227 100644
--- a/lha.go
+++ b/lha.go
@@ -63,16 +63,14 @@ type Lha struct {
 	loc                            uint16
 	ExtractDirectory               string
 
-	ExcludeFiles         []string
-	CmdFilev             []string
-	CmdFilec             int
-	newArchiveName       string
-	mostRecent           int64
-	newArchiveNameBuffer []byte
-	temporaryName        string
-	backupArchiveName    []byte
-	codecErr             error /* first error met by the running encoder or decoder */
-	overrun              int   /* bytes read past the end of the compressed data */
+	ExcludeFiles   []string
+	CmdFilev       []string
+	CmdFilec       int
+	newArchiveName string
+	mostRecent     int64
+	temporaryName  string
+	codecErr       error /* first error met by the running encoder or decoder */
+	overrun        int   /* bytes read past the end of the compressed data */
 }
 
 func (l *Lha) fail(err error) {
@@ -83,11 +81,9 @@ func (l *Lha) fail(err error) {
 
 func NewLha(archivename string) *Lha {
 	return &Lha{
-		archiveName:          archivename,
-		dirinfo:              &LzHeaderList{},
-		newArchiveNameBuffer: make([]byte, FilenameLength),
-		backupArchiveName:    make([]byte, FilenameLength),
-		CompressMethod:       Lzhuff5MethodNum,
+		archiveName:    archivename,
+		dirinfo:        &LzHeaderList{},
+		CompressMethod: Lzhuff5MethodNum,
 	}
 }
 
diff --git a/lhext.go b/lhext.go
index 88b44d5..cabd32a 100644
--- a/lhext.go
+++ b/lhext.go
@@ -156,15 +156,12 @@ func openOldArchive(l *Lha) (*os.File, error) {
 	return os.Open(l.archiveName)
 }
 
-func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
-	buffer = append(buffer, ext...)
-	return buffer
-
+func modifyFilenameExtenstion(original, ext string) string {
+	return strings.TrimSuffix(original, filepath.Ext(original)) + ext
 }
 
-func buildStandardArchiveName(buffer, original []byte, size int) []byte {
-	copy(buffer, original[:size])
-	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), size)
+func buildStandardArchiveName(original string) string {
+	return modifyFilenameExtenstion(original, archiveNameExtension)
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
@@ -264,16 +261,13 @@ func findUpdateFiles(oafp *io.Reader, l *Lha) {
 
 }
 
-// nolint: unused, deadcode
-func buildBackupName(buffer, original string) []byte {
-	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
-}
 func buildBackupFile(l *Lha) error {
-	return os.Rename(l.archiveName, string(l.backupArchiveName))
+	/* the archive stays in place until the new one takes over */
+	return Copy(l.archiveName, modifyFilenameExtenstion(l.archiveName, backupNameExtension))
 }
 
 func reportArchiveNameIfDifferent(l *Lha) {
-	if !Quiet && l.newArchiveName == string(l.newArchiveNameBuffer) {
+	if !Quiet && l.newArchiveName != l.archiveName {
 		fmt.Printf("New archive file is \"%s\"", l.newArchiveName)
 	}
 }
@@ -510,11 +504,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
+		l.newArchiveName = buildStandardArchiveName(l.archiveName)
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -610,9 +600,10 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			os.Remove(l.temporaryName)
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
@@ -805,11 +796,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
+		l.newArchiveName = buildStandardArchiveName(l.archiveName)
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -905,9 +892,10 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			os.Remove(l.temporaryName)
+			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
 
diff --git a/macro.go b/macro.go
index 771a00e..651f97e 100644
--- a/macro.go
+++ b/macro.go
@@ -40,8 +40,7 @@ const (
 var (
 	crctable             [ucharMax + 1]uint
 	archiveNameExtension string = ".lzh"
-	// nolint: unused, deadcode
-	backupNameExtension string = ".bak"
+	backupNameExtension  string = ".bak"
 
 	dtext []byte
 
-- 
2.43.0


From 66de90192e1ca519725354ea468d20e34252118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:53 +0000
Subject: [PATCH 42/90] fix: build the new archive beside the archive it
 replaces, they may lie on another file system than the current directory

---
 lhext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index cabd32a..5304d89 100644
--- a/lhext.go
+++ b/lhext.go
@@ -165,7 +165,7 @@ func buildStandardArchiveName(original string) string {
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	f, err := os.CreateTemp(filepath.Dir(l.archiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 580ea0bd9193f39b589bcde123394c67e18fcd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:16 +0000
Subject: [PATCH 43/90] fix: update archives as a whole: every old file is kept
 unless replaced, each file is added once, and any error leaves the archive
 and the files as they were

---
 lha.go   |   5 +-
 lhext.go | 684 +++++++++++++++++++------------------------------------
 2 files changed, 241 insertions(+), 448 deletions(-)

diff --git a/lha.go b/lha.go
index c9a2227..22a9df0 100644
--- a/lha.go
+++ b/lha.go
@@ -69,8 +69,9 @@ type Lha struct {
 	newArchiveName string
 	mostRecent     int64
 	temporaryName  string
-	codecErr       error /* first error met by the running encoder or decoder */
-	overrun        int   /* bytes read past the end of the compressed data */
+	added          map[string]string /* files added to the archive, by the name they have there */
+	codecErr       error             /* first error met by the running encoder or decoder */
+	overrun        int               /* bytes read past the end of the compressed data */
 }
 
 func (l *Lha) fail(err error) {
diff --git a/lhext.go b/lhext.go
index 5304d89..6385027 100644
--- a/lhext.go
+++ b/lhext.go
@@ -148,8 +148,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -172,25 +173,132 @@ func buildTemporaryFile(l *Lha) (*os.File, error) {
 	l.temporaryName = f.Name()
 	return f, nil
 }
-func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
+
+/* file of the archive to update */
+type oldFile struct {
+	hdr  *LzHeader
+	pos  int64
+	done bool /* copied to the new archive, or replaced there */
+}
+
+type oldArchive struct {
+	fp    *os.File
+	files []*oldFile
+}
+
+func readOldArchive(fr *os.File) (*oldArchive, error) {
+	old := &oldArchive{fp: fr}
+	fi, err := fr.Stat()
+	if err != nil {
+		return nil, err
+	}
+	pos, err := fr.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return nil, err
+	}
+	for {
+		var afp io.Reader = fr
+		hdr := NewLzHeader()
+		err, hasHeader := hdr.GetHeader(&afp)
+		if err == io.EOF || (err == nil && !hasHeader) {
+			return old, nil
+		}
+		if err != nil {
+			return nil, fmt.Errorf("cannot update archive \"%s\" :%v", fr.Name(), err.Error())
+		}
+		old.files = append(old.files, &oldFile{hdr: hdr, pos: pos})
+		pos += int64(hdr.HeaderSize) + int64(hdr.PackedSize)
+		if pos > fi.Size() {
+			return nil, fmt.Errorf("cannot update archive \"%s\" :it is truncated", fr.Name())
+		}
+		if _, err := fr.Seek(pos, io.SeekStart); err != nil {
+			return nil, err
+		}
+	}
+}
+
+func (l *Lha) copyOldOne(old *oldArchive, o *oldFile, nafp *io.Writer) error {
+	o.done = true
 	if !l.Noexec {
 		var v uint
 		l.readingFilename = l.archiveName
 		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+		if _, err := old.fp.Seek(o.pos, io.SeekStart); err != nil {
+			return err
+		}
+		var oafp io.Reader = old.fp
+		_, err := copyfile(&oafp, nafp, o.hdr.HeaderSize+o.hdr.PackedSize, 0, &v)
 		if err != nil {
 			return err
 		}
 
 		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
-		if l.mostRecent < hdr.UnixLastModifiedStamp {
-			l.mostRecent = hdr.UnixLastModifiedStamp
+		if string(o.hdr.Method) != LzhdirsMethod && l.mostRecent < o.hdr.UnixLastModifiedStamp {
+			l.mostRecent = o.hdr.UnixLastModifiedStamp
 		}
 	}
 	return nil
 }
 
+/*
+ * copy the files which come before the one to add, drop the one it replaces.
+ * add is false if the one of the archive has to stay
+ */
+func (l *Lha) mergeOldOnes(old *oldArchive, nafp *io.Writer, hdr *LzHeader) (add, replace bool, err error) {
+	if old == nil {
+		return true, false, nil
+	}
+	for _, o := range old.files {
+		if !o.done && hdrName(o.hdr) == hdrName(hdr) {
+			if l.UpdateIfNewer && o.hdr.UnixLastModifiedStamp >= hdr.UnixLastModifiedStamp {
+				return false, false, nil
+			}
+			replace = true
+		}
+	}
+	for _, o := range old.files {
+		if o.done {
+			continue
+		}
+		if hdrName(o.hdr) == hdrName(hdr) { /* REPLACE */
+			o.done = true
+		} else if !l.SortContents || hdrName(o.hdr) < hdrName(hdr) { /* SKIP */
+			if err = l.copyOldOne(old, o, nafp); err != nil {
+				return false, false, err
+			}
+		}
+	}
+	return true, replace, nil
+}
+
+func hdrName(hdr *LzHeader) string {
+	return string(hdr.Name[:lengthOfStringInByte(hdr.Name)])
+}
+
+/* merge the file into the new archive */
+func (l *Lha) mergeOne(name string, fp *io.Reader, old *oldArchive, nafp *io.Writer, hdr *LzHeader) error {
+	if previous, ok := l.added[hdrName(hdr)]; ok {
+		if previous == name {
+			return nil
+		}
+		return fmt.Errorf("cannot add both \"%s\" and \"%s\"", previous, name)
+	}
+	add, replace, err := l.mergeOldOnes(old, nafp, hdr)
+	if err != nil || !add {
+		return err
+	}
+	l.added[hdrName(hdr)] = name
+	if l.Noexec {
+		if replace {
+			fmt.Printf("REPLACE %s\n", name)
+		} else {
+			fmt.Printf("ADD %s\n", name)
+		}
+		return nil
+	}
+	return l.addOne(fp, nafp, hdr)
+}
+
 func initSP(sp *stringPool) {
 	sp.Size = 1024 - 0
 	sp.Used = 0
@@ -202,7 +310,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
+	sp.Buffer = append(sp.Buffer, make([]byte, size))
 	copy(sp.Buffer[sp.N], name)
 	sp.Used += size
 	sp.N++
@@ -212,53 +320,22 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount += sp.N
 }
 
-func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
+func findUpdateFiles(old *oldArchive, l *Lha) {
 	sp := stringPool{}
-	hdr := NewLzHeader()
-	var lenName int
 
 	initSP(&sp)
 
-	for {
-		err, hasHeader := hdr.GetHeader(oafp)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
-			break
-		}
-		if !hasHeader {
-			break
+	for _, o := range old.files {
+		name := strings.TrimSuffix(hdrName(o.hdr), "/")
+		if _, err := os.Lstat(name); err == nil { /* exist ? */
+			addSP(&sp, []byte(name), len(name))
 		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
-			}
-		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
-
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
-
 }
 
 func buildBackupFile(l *Lha) error {
@@ -272,9 +349,9 @@ func reportArchiveNameIfDifferent(l *Lha) {
 	}
 }
 
-func removeFiles(filec int, filev []string) {
-	for i := 0; i < filec; i++ {
-		os.Remove(filev[i])
+func removeFiles(filev map[string]string) {
+	for _, name := range filev {
+		os.Remove(name)
 	}
 }
 
@@ -357,11 +434,9 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 	return err
 }
 
-func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendIt(name string, old *oldArchive, nafp *io.Writer) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
 	var filec int
 	var filev []string
 	var i int
@@ -370,113 +445,107 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 	var directory, symlink bool
 
+	if l.isArchive(name) {
+		/* exclude target archive */
+		fmt.Printf("specified file \"%s\" is the generating archive. skip", name)
+		return nil
+	}
+
 	stbuf, err = os.Lstat(name)
 	if err != nil {
-		return oafp, fmt.Errorf("cannot access file \"%s\" error :%v", name, err.Error())
+		fmt.Fprintf(os.Stderr, "cannot access file \"%s\" error :%v\n", name, err.Error())
+		return nil
 	}
 
 	directory = stbuf.IsDir()
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
+	if !directory && !symlink && !stbuf.Mode().IsRegular() {
+		fmt.Fprintf(os.Stderr, "cannot archive \"%s\" (not a file)\n", name)
+		return nil
+	}
+
 	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+		f, err := os.Open(name)
 		if err != nil {
-			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
+			fmt.Fprintf(os.Stderr, "cannot open file \"%s\": %s\n", name, err.Error())
+			return nil
 		}
+		defer f.Close()
+		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-
-				break
-			}
-		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-		}
+	if err := l.mergeOne(name, &fp, old, nafp, hdr); err != nil {
+		return err
 	}
 
-	fp.(*os.File).Close()
-	//fp.Close()
-
 	if directory && l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
 			for i = 0; i < filec; i++ {
-				oafp, err = l.appendIt(filev[i], oafp, nafp)
-				if err != nil {
-					return oafp, err
+				if err := l.appendIt(filev[i], old, nafp); err != nil {
+					return err
 				}
 			}
 			freeFiles(filec, &filev)
 		}
 	}
-	return oafp, nil
+	return nil
+}
+
+/* is it the archive, or the one under construction */
+func (l *Lha) isArchive(name string) bool {
+	if name == l.archiveName {
+		return true
+	}
+	fi, err := os.Stat(name)
+	if err != nil {
+		return false
+	}
+	for _, v := range []string{l.archiveName, l.newArchiveName, l.temporaryName} {
+		if ai, err := os.Stat(v); err == nil && os.SameFile(fi, ai) {
+			return true
+		}
+	}
+	return false
+}
+
+/* is it excluded by the -x option */
+func (l *Lha) isExcluded(name string) bool {
+	for j := 0; j < len(l.ExcludeFiles); j++ {
+		a := strings.ToUpper(l.ExcludeFiles[j])
+		b := strings.ToUpper(filepath.Base(name))
+		if a == b {
+			return true
+		}
+	}
+	return false
 }
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
-	var oafp io.Reader
+	if err := l.updateArchive(l.appendIt); err != nil {
+		return err
+	}
+
+	/* remove archived files */
+	if l.DeleteAfterAppend && !l.Noexec {
+		removeFiles(l.added)
+	}
+	return nil
+}
+
+func (l *Lha) updateArchive(appendOne func(name string, old *oldArchive, nafp *io.Writer) error) error {
 	var nafp io.Writer
 	var i int
-	//	var old_header int
+	var old *oldArchive
 	var oldArchiveExist bool
 	var fw *os.File
 
 	l.mostRecent = 0
+	l.added = make(map[string]string)
+	l.temporaryName = ""
 
 	/* exit if no operation */
 	if !l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -486,10 +555,13 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
 		oldArchiveExist = true
-		oafp = fr
+		defer fr.Close()
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -499,110 +571,75 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
-	}
-
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
+	if oldArchiveExist && archiveIsMsdosSfx1([]byte(l.archiveName)) {
 		l.newArchiveName = buildStandardArchiveName(l.archiveName)
 	} else {
 		l.newArchiveName = l.archiveName
 	}
 
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		var err error
-		fw, err = buildTemporaryFile(l)
+	if oldArchiveExist && !l.NewArchive {
+		old, err = readOldArchive(fr)
 		if err != nil {
 			return err
 		}
-		nafp = fw
 	}
 
 	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+	if l.UpdateIfNewer && l.CmdFilec == 0 && old != nil {
+		findUpdateFiles(old, l)
 	}
 
 	/* build new archive file */
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
+	/* build temporary file */
+	/* avoid compiler warnings `uninitialized' */
+	if !l.Noexec {
+		var err error
+		fw, err = buildTemporaryFile(l)
+		if err != nil {
+			return err
 		}
+		defer os.Remove(l.temporaryName) /* unless it became the archive */
+		defer fw.Close()
+		nafp = fw
+	}
 
+	for i = 0; i < l.CmdFilec; i++ {
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
+		if !l.isExcluded(l.CmdFilev[i]) {
+			if err := appendOne(l.CmdFilev[i], old, &nafp); err != nil {
+				return err
 			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
 		}
-
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
+	if old != nil {
+		for _, o := range old.files {
+			if !o.done {
+				if err := l.copyOldOne(old, o, &nafp); err != nil {
+					return err
+				}
 			}
-			//	old_header = ftello(oafp)
 		}
-		fr.Close()
 	}
 
-	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
-		//	var tmp int
-
-		writeArchiveTail(&nafp)
-		//	tmp = ftello(nafp)
-		//	if tmp == -1 {
-		//		warning("ftello(): %s", strerror(errno))
-		//		new_archive_size = 0
-		//	} else {
-		//		new_archive_size = tmp
-		//	}
-		//	fclose(nafp)
-		fw.Close()
+		if err := writeArchiveTail(&nafp); err != nil {
+			return fmt.Errorf("cannot write to temporary file error :%v", err.Error())
+		}
+		if err := fw.Close(); err != nil {
+			return fmt.Errorf("cannot write to temporary file error :%v", err.Error())
+		}
 	}
 
 	/* build backup archive file */
 	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			os.Remove(l.temporaryName)
 			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
 		}
 	}
@@ -611,24 +648,16 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	/* copy temporary file to new archive file */
 	if !l.Noexec {
-
-		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
-			if err != nil {
-				return fmt.Errorf("error while renaming file error : %v", err.Error())
-				//	temporaryToNewArchiveFile(newArchiveSize)
-			}
+		err := os.Rename(l.temporaryName, l.newArchiveName)
+		if err != nil {
+			return fmt.Errorf("error while renaming file error : %v", err.Error())
+			//	temporaryToNewArchiveFile(newArchiveSize)
 		}
 
 		/* set new archive file mode/group */
 		setArchiveFileMode()
 	}
 
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
 	return nil
 }
 
@@ -664,264 +693,27 @@ func (s *StreamFileInfo) Sys() interface{} {
 	return nil
 }
 
-func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []byte) (*io.Reader, error) {
-	ahdr := NewLzHeader()
+func (l *Lha) appendBytes(name string, old *oldArchive, nafp *io.Writer, body []byte) error {
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
-	var filec int
-	var filev []string
-	var i int
 	stbuf := &StreamFileInfo{
 		name:    name,
 		size:    int64(len(body)),
 		modTime: time.Now(),
 		//sys:     &syscall.Stat_t{Gid: 100, Uid: 100, Mode: 33188},
 	}
-	var err error
 
 	fp = bytes.NewReader(body)
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
-	}
-
-	if err == nil || cmp > 0 { /* not in archive */
-		if l.Noexec {
-			fmt.Printf("ADD %s\n", name)
-		} else {
-			_ = l.addOne(&fp, nafp, hdr)
-		}
-	} else { /* cmp == 0 */
-		if !l.UpdateIfNewer ||
-			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
-			/* newer than archive's */
-			if l.Noexec {
-				fmt.Printf("REPLACE %s\n", name)
-			} else {
-				_ = l.addOne(&fp, nafp, hdr)
-			}
-		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-		}
-	}
-
-	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
-			for i = 0; i < filec; i++ {
-				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
-				if err != nil {
-					return oafp, err
-				}
-			}
-			freeFiles(filec, &filev)
-		}
-	}
-	return oafp, nil
+	return l.mergeOne(name, &fp, old, nafp, hdr)
 }
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
-	var oafp io.Reader
-	var nafp io.Writer
-	var i int
-	//	var old_header int
-	var oldArchiveExist bool
-	var fw *os.File
-
-	l.mostRecent = 0
-
-	/* exit if no operation */
-	if !l.UpdateIfNewer && l.CmdFilec == 0 {
-		return fmt.Errorf("no files given in argument, do nothing")
-	}
-
-	/* open old archive if exist */
-	fr, err := openOldArchive(l)
-	if err != nil {
-		oldArchiveExist = false
-	} else {
-		oldArchiveExist = true
-		oafp = fr
-	}
-
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		fmt.Printf("no files given in argument")
-		if err != nil {
-			return fmt.Errorf("archive file \"%s\" does not exists", l.archiveName)
-		}
-	}
-
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
-	}
-
-	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		l.newArchiveName = buildStandardArchiveName(l.archiveName)
-	} else {
-		l.newArchiveName = l.archiveName
-	}
-
-	/* build temporary file */
-	/* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		var err error
-		fw, err = buildTemporaryFile(l)
-		if err != nil {
-			return err
-		}
-		nafp = fw
-	}
-
-	/* find needed files when automatic update */
-	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
-	}
-
-	/* build new archive file */
-	/* cleaning arguments */
-	//cleaningFiles(&CmdFilec, &CmdFilev)
-	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
-		return nil
-	}
-
-	for i = 0; i < l.CmdFilec; i++ {
-		var j int
-
-		if l.CmdFilev[i] == l.archiveName {
-			/* exclude target archive */
-			fmt.Printf("specified file \"%s\" is the generating archive. skip", l.CmdFilev[i])
-			for j = i; j < l.CmdFilec-1; j++ {
-				l.CmdFilev[j] = l.CmdFilev[j+1]
-			}
-			l.CmdFilec--
-			i--
-			continue
-		}
-
-		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
-		}
-
-	}
-
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
-		}
-		fr.Close()
-	}
-
-	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
-	if !l.Noexec {
-		//	var tmp int
-
-		writeArchiveTail(&nafp)
-		//	tmp = ftello(nafp)
-		//	if tmp == -1 {
-		//		warning("ftello(): %s", strerror(errno))
-		//		new_archive_size = 0
-		//	} else {
-		//		new_archive_size = tmp
-		//	}
-		//	fclose(nafp)
-		fw.Close()
-	}
-
-	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
-		if err := buildBackupFile(l); err != nil {
-			os.Remove(l.temporaryName)
-			return fmt.Errorf("error while buildBackupFile : %v", err.Error())
-		}
-	}
-
-	reportArchiveNameIfDifferent(l)
-
-	/* copy temporary file to new archive file */
-	if !l.Noexec {
-
-		if len(l.newArchiveName) >= 0 {
-			err := os.Rename(l.temporaryName, l.newArchiveName)
-			if err != nil {
-				return fmt.Errorf("error while renaming file error : %v", err.Error())
-				//	temporaryToNewArchiveFile(newArchiveSize)
-			}
-		}
-
-		/* set new archive file mode/group */
-		setArchiveFileMode()
-	}
-
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
-	return nil
+	return l.updateArchive(func(name string, old *oldArchive, nafp *io.Writer) error {
+		return l.appendBytes(name, old, nafp, body)
+	})
 }
 
 func Copy(src, dst string) error {
-- 
2.43.0


From e4fe53b44ac35a05f3c8abf298f0c3a20b26b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:16 +0000
Subject: [PATCH 44/90] fix: Compress and CompressBytes add the given file, and
 only that one, to an existing archive too

---
 lha.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/lha.go b/lha.go
index 22a9df0..f4ca533 100644
--- a/lha.go
+++ b/lha.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 )
 
 type StringPool struct {
@@ -50,7 +49,6 @@ type Lha struct {
 	NewArchive                     bool
 	UpdateIfNewer                  bool
 	BackupOldArchive               bool
-	newArchive                     bool
 	DeleteAfterAppend              bool
 	SortContents                   bool
 	RecursiveArchiving             bool
@@ -152,33 +150,24 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
-	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
-	}
+	defer l.setFile(filename)()
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
-	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
-	}
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer l.setFile(fileToAdd)()
 	return CommandAdd(l.archiveName, l)
 }
+
+/* operate on this file only; call the result to come back to the former ones */
+func (l *Lha) setFile(name string) func() {
+	filev, filec := l.CmdFilev, l.CmdFilec
+	l.CmdFilev, l.CmdFilec = []string{name}, 1
+	return func() {
+		l.CmdFilev, l.CmdFilec = filev, filec
+	}
+}
-- 
2.43.0


From ee4595457e74255e70a0aae838d09652a4e2e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 45/90] fix: skip exactly the rest of the packed data between
 two headers, and report when it is missing

---
 lha.go   |  6 ++----
 lhext.go | 49 +++++++++++++++----------------------------------
 2 files changed, 17 insertions(+), 38 deletions(-)

diff --git a/lha.go b/lha.go
index f4ca533..8ba9837 100644
--- a/lha.go
+++ b/lha.go
@@ -87,7 +87,6 @@ func NewLha(archivename string) *Lha {
 }
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
-	var pos int
 	// verify mode here, no extraction
 	VerifyMode = true
 	defer func() {
@@ -111,7 +110,6 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 			break
 		}
 		headers = append(headers, h)
-		pos = 0
 		// seek io.reader to + file size
 		if l.needFile(string(h.Name[:])) {
 			readSize, err := l.extractOne(&or, h)
@@ -121,12 +119,12 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 			if readSize != h.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&or, pos, h.PackedSize, readSize); err != nil {
+				if err := skipToNextpos(&or, h.PackedSize, readSize); err != nil {
 					return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 				}
 			}
 		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
+			if err := skipToNextpos(&or, h.PackedSize, 0); err != nil {
 				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 			}
 		}
diff --git a/lhext.go b/lhext.go
index 6385027..e451a9b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -744,7 +744,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -779,9 +778,9 @@ func CommandList(archiveFilepath string, l *Lha) error {
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+			return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
+		}
 	}
 
 	/* close archive file */
@@ -855,7 +854,6 @@ func CommadDelete(archiveFilepath string, l *Lha) error {
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	var outputData []byte
 
@@ -882,7 +880,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		if !hasHeader {
 			return outputData, nil
 		}
-		pos = 0
 
 		if string(hdr.Name) == string(header.Name) {
 			var readSize int
@@ -893,13 +890,13 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
 					return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -915,7 +912,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 
 	/* open archive file */
@@ -941,7 +937,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		if !hasHeader {
 			return nil
 		}
-		pos = 0
 
 		if string(hdr.Name) == string(header.Name) {
 			readSize, err := l.extractOne(&afp, hdr)
@@ -951,13 +946,13 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
 					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -973,7 +968,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
 	hdr := NewLzHeader()
-	var pos int
 	var afp io.Reader
 	//var read_size int
 
@@ -1002,7 +996,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		if !hasHeader {
 			return nil
 		}
-		pos = 0
 		if l.needFile(string(hdr.Name[:])) {
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
@@ -1011,13 +1004,13 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			if readSize != hdr.PackedSize {
 				/* when error occurred in extract_one(), should adjust
 				   point of file stream */
-				if err := skipToNextpos(&afp, pos, hdr.PackedSize, readSize); err != nil {
+				if err := skipToNextpos(&afp, hdr.PackedSize, readSize); err != nil {
 					return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1063,21 +1056,9 @@ func (l *Lha) adjustDirinfo() {
 	}
 }
 
-func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+func skipToNextpos(fp *io.Reader, off, readSize int) error {
+	_, err := io.CopyN(io.Discard, *fp, int64(off-readSize))
+	return err
 }
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-- 
2.43.0


From f5c7bdc378fd569fb753891bea53853ae1cb64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 46/90] fix: report damaged headers when listing or reading
 headers, and no error at the end of an archive without end mark

---
 lha.go   | 5 ++++-
 lhext.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lha.go b/lha.go
index 8ba9837..cc6e4b7 100644
--- a/lha.go
+++ b/lha.go
@@ -103,10 +103,13 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
+		if err == io.EOF {
 			break
 		}
 		if err != nil {
+			return headers, err
+		}
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
diff --git a/lhext.go b/lhext.go
index e451a9b..a9c3ab7 100644
--- a/lhext.go
+++ b/lhext.go
@@ -768,7 +768,11 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	var hasHeader bool
 	for {
 		err, hasHeader = hdr.GetHeader(&afp)
-		if !hasHeader {
+		if err == io.EOF {
+			err = nil
+			break
+		}
+		if err != nil || !hasHeader {
 			break
 		}
 		if l.needFile(string(hdr.Name[:])) {
-- 
2.43.0


From 26cd54100fe37dc21779a0e8d570eb3983c92d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:52 +0000
Subject: [PATCH 47/90] fix: finish the extraction the same way with and
 without end mark

---
 lhext.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index a9c3ab7..ff831f6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -882,7 +882,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
 
 		if string(hdr.Name) == string(header.Name) {
@@ -939,7 +939,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 
 		if string(hdr.Name) == string(header.Name) {
@@ -998,7 +998,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		if l.needFile(string(hdr.Name[:])) {
 			readSize, err := l.extractOne(&afp, hdr)
-- 
2.43.0


From c3a7abe45e49fd5afe59f9312be329267c6013e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:52 +0000
Subject: [PATCH 48/90] fix: close the archive when reading it fails

---
 lhext.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/lhext.go b/lhext.go
index ff831f6..8971d9e 100644
--- a/lhext.go
+++ b/lhext.go
@@ -757,6 +757,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	/* print header message */
@@ -787,9 +788,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
@@ -866,6 +864,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -905,9 +904,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -923,6 +919,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -961,9 +958,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -982,6 +976,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1019,9 +1014,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
-- 
2.43.0


From 32ea0c2a583c28f65be66dfd3ed47131d0173498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:53 +0000
Subject: [PATCH 49/90] fix: report a file which is not in the archive, and
 compare names up to their end

---
 lhext.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index 8971d9e..1cfe109 100644
--- a/lhext.go
+++ b/lhext.go
@@ -858,6 +858,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	hdr := NewLzHeader()
 	var afp io.Reader
 	var outputData []byte
+	var found bool
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
@@ -884,8 +885,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			break
 		}
 
-		if string(hdr.Name) == string(header.Name) {
+		if hdrName(hdr) == hdrName(header) {
 			var readSize int
+			found = true
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
 				return outputData, err
@@ -907,11 +909,15 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return outputData, fmt.Errorf("\"%s\" is not in the archive", hdrName(header))
+	}
 	return outputData, nil
 }
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
+	var found bool
 	var afp io.Reader
 
 	/* open archive file */
@@ -939,7 +945,8 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			break
 		}
 
-		if string(hdr.Name) == string(header.Name) {
+		if hdrName(hdr) == hdrName(header) {
+			found = true
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -961,6 +968,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return fmt.Errorf("\"%s\" is not in the archive", hdrName(header))
+	}
 	return nil
 }
 
-- 
2.43.0


From 73a603c31d94a40222f599721aba5076fa23aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:53 +0000
Subject: [PATCH 50/90] fix: select files by their name without its terminator

---
 lhext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 1cfe109..8aeca7b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1431,7 +1431,7 @@ func (l *Lha) needFile(name string) bool {
 		return true
 	}
 	for i := 0; i < len(l.CmdFilev); i++ {
-		if l.CmdFilev[i] == name {
+		if l.CmdFilev[i] == name[:lengthOfStringInByte([]byte(name))] {
 			return true
 		}
 	}
-- 
2.43.0


From ad279dfe92f80493b761aa4c16ae6b1db7839d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:53 +0000
Subject: [PATCH 51/90] fix: report errors met while decompressing to memory

---
 lhext.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 8aeca7b..b2558a9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1165,7 +1165,7 @@ func symlinkWithMakePath(realname string, name string) int {
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
+	name := hdr.Name
 	var crc uint
 	var method int
 	var readSize int
@@ -1202,10 +1202,13 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			method,
 			&readSize))
 
+		b.Flush()
+		if l.codecErr != nil {
+			return 0, outputData.Bytes(), fmt.Errorf("cannot extract \"%s\" :%v", hdrName(hdr), l.codecErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
-			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
+			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", hdrName(hdr))
 		}
-		b.Flush()
 		return readSize, outputData.Bytes(), nil
 	} else {
 		return 0, outputData.Bytes(), fmt.Errorf("cannot not stream directory content")
-- 
2.43.0


From 642d66d97ad956a835b76fd4dac40c2877e87c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 52/90] fix: report errors and wrong CRCs when extracting to a
 file, and restore its time stamp and permissions

---
 lhext.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lhext.go b/lhext.go
index b2558a9..7617b9b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1344,21 +1344,25 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			}
 			var err error
 			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			if err != nil {
+				return 0, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				string(name[:]),
+				method,
+				&readSize))
+			if err = fp.(*os.File).Close(); err != nil {
+				return 0, err
 			}
-
-			return readSize, nil
 		}
 
+		if l.codecErr != nil {
+			return 0, fmt.Errorf("cannot extract \"%s\" :%v", name, l.codecErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, fmt.Errorf("CRC error: \"%s\"", name)
 		}
-- 
2.43.0


From 65b26ed8ddc1ab1d831b0a31c6e744f88c665546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 53/90] fix: never change the target of an extracted symbolic
 link

---
 lhext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index 7617b9b..e417768 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1041,14 +1041,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
-- 
2.43.0


From c22ef30da6bb66456cc197a57a5394eb51130f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 54/90] fix: read the answer to the overwrite question and obey
 it

---
 lhext.go | 58 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/lhext.go b/lhext.go
index e417768..2cae211 100644
--- a/lhext.go
+++ b/lhext.go
@@ -79,21 +79,34 @@ func isDirectoryTraversal(path string) bool {
 }
 
 func inquire(msg string, name string, selective string) int {
-	reader := bufio.NewReader(os.Stdin)
-
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
+		response := readLine(os.Stdin)
 
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		for i := 0; i < len(selective); i++ {
+			if response[0] == selective[i] {
+				return i
 			}
 		}
 	}
 	/* NOTREACHED */
 }
 
+/* read an answer, and only it: the next one is for the next question */
+func readLine(fp io.Reader) string {
+	var line []byte
+	c := make([]byte, 1)
+	for {
+		if _, err := io.ReadFull(fp, c); err != nil {
+			return string(line) + "\n"
+		}
+		line = append(line, c[0])
+		if c[0] == '\n' {
+			return string(line)
+		}
+	}
+}
+
 func inquireExtract(name string, l *Lha) (bool, error) {
 
 	l.skipFlg = false
@@ -112,24 +125,20 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
-
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
-				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 0, 1: /* Y/y */
+
+			case 2, 3, 8: /* N/n, Return */
+				return false, nil
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
@@ -1321,18 +1330,15 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
+				upFlag, err = inquireExtract(string(name[:]), l)
 				if !upFlag && !l.Force {
-					return readSize, nil
+					return readSize, err
 				}
 			}
 
 			if l.skipFlg {
 				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
+				if err == nil && !l.Force {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 					}
@@ -1380,9 +1386,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
+						upFlag, err = inquireExtract(string(name[:]), l)
 						if !upFlag && !l.Force {
-							return readSize, nil
+							return readSize, err
 						}
 					}
 
-- 
2.43.0


From 5afcd86700e59007ccae20bc91194b5fd26dd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 55/90] fix: forget the overwrite answers and the directories
 of an extraction when it ends

---
 lhext.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lhext.go b/lhext.go
index 2cae211..09b8223 100644
--- a/lhext.go
+++ b/lhext.go
@@ -863,7 +863,18 @@ func CommadDelete(archiveFilepath string, l *Lha) error {
 	return nil
 }
 
+/* the answers given during an extraction end with it; call the result there */
+func (l *Lha) keepAnswers() func() {
+	force := l.Force
+	l.skipFlg = false
+	l.dirinfo = nil
+	return func() {
+		l.Force = force
+	}
+}
+
 func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
+	defer l.keepAnswers()()
 	hdr := NewLzHeader()
 	var afp io.Reader
 	var outputData []byte
@@ -925,6 +936,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 }
 
 func extractWithHeader(header *LzHeader, l *Lha) error {
+	defer l.keepAnswers()()
 	hdr := NewLzHeader()
 	var found bool
 	var afp io.Reader
@@ -984,6 +996,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 }
 
 func CommandExtract(archiveFilepath string, l *Lha) error {
+	defer l.keepAnswers()()
 	hdr := NewLzHeader()
 	var afp io.Reader
 	//var read_size int
-- 
2.43.0


From ec54233ab27c1daecfbefce98524a040d6496fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 56/90] fix: extract under the last component of the name, in
 the directory asked for

---
 lhext.go | 81 +++++++-------------------------------------------------
 1 file changed, 9 insertions(+), 72 deletions(-)

diff --git a/lhext.go b/lhext.go
index 09b8223..1eb23fe 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1089,38 +1089,6 @@ func skipToNextpos(fp *io.Reader, off, readSize int) error {
 	return err
 }
 
-func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-
-	var offset int
-	if len(l.ExtractDirectory) > 0 {
-		name = l.ExtractDirectory + "/"
-		offset += len(name)
-	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
-		}
-		_, err = filepath.EvalSymlinks(name)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
-			return false, []byte(name), nil
-		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
-	}
-	name = q[offset:last]
-	return true, []byte(name), nil
-}
-
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
 	if err != nil {
@@ -1240,52 +1208,21 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 
 func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var fp io.Writer
-	name := make([]byte, FilenameLength)
 	var crc uint
 	var method int
 	var saveQuiet, saveVerbose, upFlag bool
-	var q = hdr.Name
-	var c byte
+	var err error
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
+	/* the name of a directory may have a trailing SLASH '/' */
+	q := strings.TrimRight(hdrName(hdr), "/")
+	q = q[strings.LastIndex(q, "/")+1:]
+	if isDirectoryTraversal(q) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdrName(hdr))
 	}
-	if l.IgnoreDirectory {
-		p++
-	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
-
-			/*
-			 * if OSK then strip device name
-			 */
-			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
-			}
-		}
-
-	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
-	if err != nil || !ok {
-		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
+	name := q
+	if len(l.ExtractDirectory) > 0 {
+		name = filepath.Join(l.ExtractDirectory, q)
 	}
 
 	/* LZHDIRS_METHODを持つヘッダをチェックする */
-- 
2.43.0


From ffc4606966520956efae72f81783a3373570b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:56 +0000
Subject: [PATCH 57/90] fix: replace the existing file or link instead of
 writing through it, and report links which cannot be made

---
 lhext.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/lhext.go b/lhext.go
index 1eb23fe..61b5cfd 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1104,7 +1104,26 @@ func makeParentPath(name string) (bool, error) {
 	return true, nil
 }
 
+/*
+ * make room for the file to extract: writing into the existing one would change
+ * the file it links to. The missing directories are created.
+ */
+func removeExisting(name string) error {
+	st, err := os.Lstat(name)
+	if err == nil && !st.IsDir() {
+		return os.Remove(name)
+	}
+	if os.IsNotExist(err) {
+		return os.MkdirAll(filepath.Dir(name), 0777)
+	}
+	return err
+}
+
 func openWithMakePath(name string) (io.Writer, error) {
+	err := removeExisting(name)
+	if err != nil {
+		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
+	}
 	f, err := os.Create(name)
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
@@ -1138,19 +1157,11 @@ func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
 	l.dirinfo = (*top).Next
 }
 
-func symlinkWithMakePath(realname string, name string) int {
-	var lCode int
-
-	err := os.Symlink(realname, name)
-	if err != nil {
-		_, _ = makeParentPath(name)
-		err = os.Symlink(realname, name)
-		if err != nil {
-			lCode = 1
-		}
+func symlinkWithMakePath(realname string, name string) error {
+	if err := removeExisting(name); err != nil {
+		return err
 	}
-
-	return lCode
+	return os.Symlink(realname, name)
 }
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
@@ -1334,7 +1345,6 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 				/* NAME has trailing SLASH '/', (^_^) */
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
-					var lcode int
 					if !l.skipFlg {
 						upFlag, err = inquireExtract(string(name[:]), l)
 						if !upFlag && !l.Force {
@@ -1352,11 +1362,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 						}
 					}
 
-					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					realname := string(hdr.Realname[:lengthOfStringInByte(hdr.Realname)])
+					if err := symlinkWithMakePath(realname, string(name[:])); err != nil {
+						return readSize, fmt.Errorf("can't make Symbolic Link \"%s\" -> \"%s\" :%v", name, realname, err)
 					}
 					if !Quiet {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
-- 
2.43.0


From 0a0cfe1d4ebdd4796ad2e2666ae9fa1c64753192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:57 +0000
Subject: [PATCH 58/90] fix: create the directories of the archive

---
 lhext.go | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/lhext.go b/lhext.go
index 61b5cfd..bf9ddfd 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1091,13 +1091,14 @@ func skipToNextpos(fp *io.Reader, off, readSize int) error {
 
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
-	if err != nil {
-		return false, err
-	}
-	if st.IsDir() {
+	if err == nil && st.IsDir() {
 		return true, nil
 	}
-	err = os.MkdirAll(name, 0777)
+	if os.IsNotExist(err) {
+		err = os.MkdirAll(name, 0777)
+	} else if err == nil {
+		err = fmt.Errorf("\"%s\" already exists (not a directory)", name)
+	}
 	if err != nil {
 		return false, err
 	}
@@ -1133,28 +1134,13 @@ func openWithMakePath(name string) (io.Writer, error) {
 }
 
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
-
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
-	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
-			break
-		}
-	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
-	}
-	l.dirinfo = (*top).Next
+	/* with the name it has on disk */
+	dir := *hdr
+	dir.Name = []byte(name)
+	l.dirinfo = &LzHeaderList{Hdr: &dir, Next: l.dirinfo}
 }
 
 func symlinkWithMakePath(realname string, name string) error {
@@ -1370,9 +1356,12 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
 					}
 				} else { /* make directory */
+					if q == "" || q == "." {
+						return readSize, nil
+					}
 					ok, err := makeParentPath(string(name[:]))
 					if err != nil || !ok {
-						return readSize, nil
+						return readSize, err
 					}
 					/* save directory information */
 					l.addDirinfo(string(name[:]), hdr)
-- 
2.43.0


From c18779b7e9b82202b9ee06b032221480fbec4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:35 +0000
Subject: [PATCH 59/90] fix: do not change the attributes of a file which was
 not extracted

---
 lhext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index bf9ddfd..fbb10ac 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1322,7 +1322,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	} else {
 		if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileDirectory) || (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) || method == LzhdirsMethodNum {
 			/* ↑これで、Symbolic Link は、大丈夫か？ */
-			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
+			if l.IgnoreDirectory {
+				return readSize, nil
+			}
+			if !VerifyMode && !l.OutputToStdout {
 				if l.Noexec {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
-- 
2.43.0


From 8ee7369c2a5ad3b6a7a6ef698dd6a4bf6b7b260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:36 +0000
Subject: [PATCH 60/90] fix: extract a file of an unknown type when forced to

---
 lhext.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lhext.go b/lhext.go
index fbb10ac..6c7ded6 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1233,7 +1233,11 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
+	fileType := hdr.UnixMode & uint16(UnixFileTypemask)
+	if l.Force && fileType != uint16(UnixFileDirectory) && fileType != uint16(UnixFileSymlink) { /* force extract */
+		fileType = uint16(UnixFileRegular)
+	}
+	if fileType == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
 		//	extractRegular:
 		l.readingFilename = l.archiveName
 		l.writingFilename = string(name[:])
@@ -1371,11 +1375,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-- 
2.43.0


From 07a445740795cdc02dd2b739436bedee64a10ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:36 +0000
Subject: [PATCH 61/90] fix: leave the verify mode as it was after reading the
 headers

---
 lha.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lha.go b/lha.go
index cc6e4b7..fc6537a 100644
--- a/lha.go
+++ b/lha.go
@@ -88,10 +88,10 @@ func NewLha(archivename string) *Lha {
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	// verify mode here, no extraction
+	defer func(verifyMode bool) {
+		VerifyMode = verifyMode
+	}(VerifyMode)
 	VerifyMode = true
-	defer func() {
-		VerifyMode = false
-	}()
 	MakeCrcTable()
 	headers = make([]*LzHeader, 0)
 	fr, err := openOldArchive(l)
-- 
2.43.0


From 413693b7c260afff7e6c9b8bd6058d307424eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:37 +0000
Subject: [PATCH 62/90] fix: recognize the .x archives

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 6b0dd99..a0c869a 100644
--- a/util.go
+++ b/util.go
@@ -89,7 +89,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From 244b0ec59387c4e44582d80d564215f46546141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:37 +0000
Subject: [PATCH 63/90] fix: find the first header after the code of a self
 extracting archive

---
 header.go | 54 ++++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/header.go b/header.go
index a7efa0a..bbb2fc6 100644
--- a/header.go
+++ b/header.go
@@ -1,6 +1,7 @@
 package lha
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -1024,43 +1025,40 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
-	var n int
-	n, err := (*fp).Read(buffer)
-	if err != nil {
-		return err, 0
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err, -1
 	}
-
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	found := -1
+	for i := 0; i+iMethod+methodTypeStorage <= n && found == -1; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
 		}
-		/* found "-[lp]??-" keyword (as METHOD type string) */
-
-		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		/* found "-[lp]??-" keyword (as METHOD type string), of a header ? */
+		var r io.Reader = bytes.NewReader(p)
+		if err, hasHeader := NewLzHeader().GetHeader(&r); err == nil && hasHeader {
+			found = i
 		}
+	}
 
-		/* level 2 header */
-		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+	/* come back to the header, or to where it was */
+	start := found
+	if found == -1 {
+		start = 0
+	}
+	if s, ok := (*fp).(io.Seeker); ok {
+		if _, err := s.Seek(int64(start-n), io.SeekCurrent); err != nil {
+			return err, -1
 		}
+	} else {
+		*fp = io.MultiReader(bytes.NewReader(buffer[start:n]), *fp)
 	}
-
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
-	return nil, -1
+	if found == -1 {
+		return nil, -1
+	}
+	return nil, 0
 }
 
 // nolint: unused, deadcode
-- 
2.43.0


From 58a9219f90aad0f5e70550f752a1036b14d48940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:06 +0000
Subject: [PATCH 64/90] fix: list and update the self extracting archives

---
 lhext.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lhext.go b/lhext.go
index 6c7ded6..b1456fe 100644
--- a/lhext.go
+++ b/lhext.go
@@ -163,7 +163,14 @@ func writeArchiveTail(nafp *io.Writer) error {
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
-	return os.Open(l.archiveName)
+	f, err := os.Open(l.archiveName)
+	if err == nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
+		var afp io.Reader = f
+		if err, _ = NewLzHeader().SeekLhaHeader(&afp); err != nil {
+			f.Close()
+		}
+	}
+	return f, err
 }
 
 func modifyFilenameExtenstion(original, ext string) string {
@@ -762,7 +769,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	/* initialize total count */
 
 	/* open archive file */
-	f, err := os.Open(l.archiveName)
+	f, err := openOldArchive(l)
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
-- 
2.43.0


From 9ac47ec496d0c80fcafff3737c619d5e913d62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:44 +0000
Subject: [PATCH 65/90] fix: list names, owners and methods without their
 padding

---
 lhext.go | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/lhext.go b/lhext.go
index b1456fe..e701b52 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1411,18 +1411,19 @@ func (l *Lha) needFile(name string) bool {
 func (l *Lha) listOne(hdr *LzHeader) {
 	var mode int
 	var p string
-	var method [6]byte
+	name := hdrName(hdr)
+	realname := string(hdr.Realname[:lengthOfStringInByte(hdr.Realname)])
+	user := string(hdr.User[:lengthOfStringInByte(hdr.User)])
+	group := string(hdr.Group[:lengthOfStringInByte(hdr.Group)])
 	var modebits [11]byte = [11]byte{'-', '-', '-', '-', '-', '-', '-', '-', '-', '-', '-'}
 
 	if l.Verbose {
 		if (int(hdr.UnixMode) & UnixFileSymlink) != UnixFileSymlink {
-			fmt.Printf("%s\n", hdr.Name)
+			fmt.Printf("%s\n", name)
 		} else {
-			fmt.Printf("%s -> %s\n", hdr.Name, hdr.Realname)
+			fmt.Printf("%s -> %s\n", name, realname)
 		}
 	}
-	copy(method[:], hdr.Method[:])
-	method[5] = 0
 
 	switch hdr.ExtendType {
 	case ExtendUnix:
@@ -1477,9 +1478,8 @@ func (l *Lha) listOne(hdr *LzHeader) {
 				modebits[9] = 'x'
 			}
 		}
-		modebits[10] = 0
 
-		fmt.Printf("%s ", modebits)
+		fmt.Printf("%s ", modebits[:10])
 
 	case ExtendOs68k:
 		/**/
@@ -1553,38 +1553,38 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	switch hdr.ExtendType {
 	case ExtendUnix:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if user != "" {
+			fmt.Printf("%5.5s/", user)
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if group != "" {
+			fmt.Printf("%-5.5s ", group)
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendOs68k:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if user != "" {
+			fmt.Printf("%5.5s/", user)
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if group != "" {
+			fmt.Printf("%-5.5s ", group)
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
 	case ExtendXosk:
-		if hdr.User[0] != 0 {
-			fmt.Printf("%5.5s/", hdr.User)
+		if user != "" {
+			fmt.Printf("%5.5s/", user)
 		} else {
 			fmt.Printf("%5d/", hdr.UnixUID)
 		}
 
-		if hdr.Group[0] != 0 {
-			fmt.Printf("%-5.5s ", hdr.Group)
+		if group != "" {
+			fmt.Printf("%-5.5s ", group)
 		} else {
 			fmt.Printf("%-5d ", hdr.UnixGid)
 		}
@@ -1598,9 +1598,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if l.VerboseListing {
 		if hdr.HasCrc {
-			fmt.Printf(" %s %04x", method, hdr.Crc)
+			fmt.Printf(" %s %04x", hdr.Method, hdr.Crc)
 		} else {
-			fmt.Printf(" %s ****", method)
+			fmt.Printf(" %s ****", hdr.Method)
 		}
 	}
 
@@ -1609,9 +1609,9 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 	if !l.Verbose {
 		if (hdr.UnixMode & uint16(UnixFileSymlink)) != uint16(UnixFileSymlink) {
-			fmt.Printf(" %s", hdr.Name)
+			fmt.Printf(" %s", name)
 		} else {
-			fmt.Printf(" %s -> %s", hdr.Name, hdr.Realname)
+			fmt.Printf(" %s -> %s", name, realname)
 		}
 	}
 	if l.Verbose {
-- 
2.43.0


From 036b4db09cbd79bf682dd9bcec14149d7dfd89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:09 +0000
Subject: [PATCH 66/90] fix: obey the -f, -n, -v, -c, -u and -m options of the
 command line

---
 cmd/lharc.go | 51 +++++++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..13ba730 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -14,21 +14,18 @@ const ()
 
 var (
 	// nolint: unused, deadcode
-	version         = flag.Bool("version", false, "print version of application ")
-	listfile        = flag.Bool("l", false, "List ")
-	listfileverbose = flag.Bool("lv", false, "Verbose List ")
-	extractfile     = flag.Bool("e", false, "EXtract from archive ")
-	updatefile      = flag.Bool("u", false, "Update newer files to archive ")
-	deletefile      = flag.Bool("d", false, "Delete from archive ")
-	addfile         = flag.String("a", "", "Add(or replace) to archive ")
-	movefile        = flag.Bool("m", false, "Move to archive ")
-	createfile      = flag.String("c", "", "re-Construct new archive ")
-	testcrcfile     = flag.Bool("t", false, "Test file CRC in archive ")
-	// nolint: unused, deadcode
-	verbosemodeoption = flag.Bool("v", false, "verbose ")
-	// nolint: unused, deadcode
-	nonexecuteoption = flag.Bool("n", false, "not execute")
-	// nolint: unused, deadcode
+	version            = flag.Bool("version", false, "print version of application ")
+	listfile           = flag.Bool("l", false, "List ")
+	listfileverbose    = flag.Bool("lv", false, "Verbose List ")
+	extractfile        = flag.Bool("e", false, "EXtract from archive ")
+	updatefile         = flag.Bool("u", false, "Update newer files to archive ")
+	deletefile         = flag.Bool("d", false, "Delete from archive ")
+	addfile            = flag.String("a", "", "Add(or replace) to archive ")
+	movefile           = flag.Bool("m", false, "Move to archive ")
+	createfile         = flag.String("c", "", "re-Construct new archive ")
+	testcrcfile        = flag.Bool("t", false, "Test file CRC in archive ")
+	verbosemodeoption  = flag.Bool("v", false, "verbose ")
+	nonexecuteoption   = flag.Bool("n", false, "not execute")
 	forceoption        = flag.Bool("f", false, "force (over write at extract) ")
 	printstdoutarchive = flag.Bool("p", false, "Print to STDOUT from archive ")
 	genericformat      = flag.Int("g", 2, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
@@ -44,12 +41,6 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
@@ -110,21 +101,18 @@ func parseOption() {
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
-		return
 	}
 	if *extractfile {
 		cmd = lha.CmdExtract
-		return
 	}
 
 	if *printstdoutarchive {
 		l.OutputToStdout = true
 		cmd = lha.CmdExtract
-		return
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,19 +131,14 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
-
+		l.UpdateIfNewer = true
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
-
+		l.DeleteAfterAppend = true
 	}
 
-	if *listfile {
-		cmd = lha.CmdList
-	}
 	if *listfileverbose {
 		cmd = lha.CmdList
 		l.VerboseListing = true
@@ -171,6 +154,10 @@ func parseOption() {
 }
 
 func parseSubOption() {
+	l.Verbose = *verbosemodeoption
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
+
 	if *genericformat != 5 {
 		lha.GenericFormat = true
 		l.HeaderLevel = *genericformat
-- 
2.43.0


From 225d789717b02bdcedac19316056ae88fbb59080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:10 +0000
Subject: [PATCH 67/90] fix: use the header level, the format and the method
 asked for on the command line

---
 cmd/lharc.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index 13ba730..82f1f61 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -28,7 +28,7 @@ var (
 	nonexecuteoption   = flag.Bool("n", false, "not execute")
 	forceoption        = flag.Bool("f", false, "force (over write at extract) ")
 	printstdoutarchive = flag.Bool("p", false, "Print to STDOUT from archive ")
-	genericformat      = flag.Int("g", 2, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
+	genericformat      = flag.Int("g", 5, " Generic format (for compatibility) 0/1/2 header level (a/u/c) ")
 	compressionmethod  = flag.Int("o", 0, "o[567] compression method (a/u/c) ")
 	headerlevel        = flag.Int("h", 2, "0/1/2 header level (a/u/c) ")
 	excludefiles       = flag.String("x", "", "x=<pattern>  eXclude files (a/u/c), format : -x file1,file2,file3 ")
@@ -68,7 +68,10 @@ func main() {
 
 	initVariable() /* Added N.Watazaki */
 
-	parseOption()
+	if err := parseOption(); err != nil {
+		fmt.Fprintf(os.Stderr, "Execution error :%v\n", err.Error())
+		os.Exit(1)
+	}
 	sortFiles()
 	/* make crc table */
 	lha.MakeCrcTable()
@@ -97,7 +100,7 @@ func main() {
 /*
 Parse LHA command and options.
 */
-func parseOption() {
+func parseOption() error {
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -150,22 +153,15 @@ func parseOption() {
 		lha.VerifyMode = true
 
 	}
-	parseSubOption()
+	return parseSubOption()
 }
 
-func parseSubOption() {
+func parseSubOption() error {
 	l.Verbose = *verbosemodeoption
 	l.Noexec = *nonexecuteoption
 	l.Force = *forceoption
 
-	if *genericformat != 5 {
-		lha.GenericFormat = true
-		l.HeaderLevel = *genericformat
-	}
-
 	if *compressionmethod != 0 {
-		l.CompressMethod = lha.Lzhuff1MethodNum
-		l.HeaderLevel = 0
 		switch *compressionmethod {
 		case 5:
 			l.CompressMethod = lha.Lzhuff5MethodNum
@@ -174,8 +170,7 @@ func parseSubOption() {
 		case 7:
 			l.CompressMethod = lha.Lzhuff7MethodNum
 		default:
-			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'", *compressionmethod)
-			return
+			return fmt.Errorf("invalid compression method 'o%d'", *compressionmethod)
 		}
 	}
 
@@ -183,14 +178,15 @@ func parseSubOption() {
 		l.ExcludeFiles = strings.Split(*excludefiles, ",")
 	}
 
-	if *headerlevel != 2 {
-		switch *headerlevel {
-		case 0:
-			l.HeaderLevel = 0
-		case 1:
-			l.HeaderLevel = 1
-		}
+	l.HeaderLevel = *headerlevel
+	if *genericformat != 5 {
+		lha.GenericFormat = true
+		l.HeaderLevel = *genericformat
+	}
+	if l.HeaderLevel < 0 || l.HeaderLevel > 2 {
+		return fmt.Errorf("invalid header level %d", l.HeaderLevel)
 	}
+	return nil
 }
 
 func printVersion() {
-- 
2.43.0


From bcb6e26ace6df2a71213797ff57532db0660ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:10 +0000
Subject: [PATCH 68/90] fix: do not report the operations which are not done as
 successful

---
 cmd/lharc.go | 4 ++--
 lhext.go     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index 82f1f61..7086f21 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -84,9 +84,9 @@ func main() {
 	case lha.CmdList:
 		globalError = lha.CommandList(*archiveNameOption, l) // to be tested
 	case lha.CmdDelete:
-		_ = lha.CommadDelete(*archiveNameOption, l) // to implemennt
+		globalError = lha.CommadDelete(*archiveNameOption, l) // to implemennt
 	default:
-		fmt.Fprintf(os.Stderr, "option unknown.")
+		globalError = fmt.Errorf("option unknown")
 		printVersion()
 	}
 
diff --git a/lhext.go b/lhext.go
index e701b52..d653aca 100644
--- a/lhext.go
+++ b/lhext.go
@@ -867,7 +867,7 @@ func listHeader(l *Lha) {
 func CommadDelete(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 
-	return nil
+	return fmt.Errorf("cannot delete from archive \"%s\" :not implemented", l.archiveName)
 }
 
 /* the answers given during an extraction end with it; call the result there */
-- 
2.43.0


From 8ef11d9b94e39be41e9403f28edc1b463678238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 69/90] fix: write the whole 64 Kb dictionary of -lh7- when
 decoding

---
 larc.go | 4 ++--
 lha.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/larc.go b/larc.go
index 8e8d59c..ffa1528 100644
--- a/larc.go
+++ b/larc.go
@@ -33,7 +33,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
 }
 
 /* ------------------------------------------------------------------------ */
@@ -75,7 +75,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic5)) & 0xfff
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index fc6537a..020ec84 100644
--- a/lha.go
+++ b/lha.go
@@ -58,7 +58,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles   []string
-- 
2.43.0


From 4a91527359af2d0e97f8f97ee2621686cdbe92d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:33 +0000
Subject: [PATCH 70/90] fix: do not mix the fields of a header with those of
 the one read before

---
 header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/header.go b/header.go
index bbb2fc6..308083a 100644
--- a/header.go
+++ b/header.go
@@ -873,6 +873,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	var filenameCase int = none
 	var endMark byte
 
+	*l = *NewLzHeader() /* nothing stays from the header read before */
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
 	_, err := io.ReadFull(*fp, buf)
-- 
2.43.0


From c0500ec58ad92ffac507a7255d697bd9310c285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:34 +0000
Subject: [PATCH 71/90] fix: recognize the directories of the Amiga archives

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 308083a..1ba8621 100644
--- a/header.go
+++ b/header.go
@@ -937,7 +937,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	case ExtendAmiga:
 		{
 			/* workaround */
-			lenName := len(l.Name)
+			lenName := lengthOfStringInByte(l.Name)
 			if lenName > 0 && l.Name[lenName-1] == lhaPathsep && string(l.Method[:]) == Lzhuff0Method {
 				/* replace with "-lhd-" */
 				copy(l.Method[:], LzhdirsMethod)
-- 
2.43.0


From cc5f801a9c850068008e3a5d69d20a8f74b06289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:37 +0000
Subject: [PATCH 72/90] fix: label content given with a negative method number
 as stored

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 1230520..9313fc0 100644
--- a/append.go
+++ b/append.go
@@ -29,7 +29,7 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 
 	if method < 0 {
 		method = l.CompressMethod
-		if method > 0 {
+		if method != 0 {
 			method, _ = encodeAlloc(method)
 		}
 	}
-- 
2.43.0


From 75faabb7b91e6eb95c9ade1bb10897046fac47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:09 +0000
Subject: [PATCH 73/90] fix: report a level 2 header cut before its padding
 instead of taking it as the end of the archive

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 1ba8621..ba1e115 100644
--- a/header.go
+++ b/header.go
@@ -763,7 +763,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 		buf := make([]byte, 1)
 		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
-			return err, false
+			return fmt.Errorf("invalid header (LHarc file ?)"), false
 		}
 		hcrc = updateCrc(hcrc, buf[0])
 	}
-- 
2.43.0


From f89eda552726c9926a6646afd119fbf69be9cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:59 +0000
Subject: [PATCH 74/90] fix: replace the file of the archive whatever the order
 in which the files are added

---
 lha.go   |  1 +
 lhext.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/lha.go b/lha.go
index 020ec84..65cc282 100644
--- a/lha.go
+++ b/lha.go
@@ -68,6 +68,7 @@ type Lha struct {
 	mostRecent     int64
 	temporaryName  string
 	added          map[string]string /* files added to the archive, by the name they have there */
+	pending        []string          /* files which are still to be added */
 	codecErr       error             /* first error met by the running encoder or decoder */
 	overrun        int               /* bytes read past the end of the compressed data */
 }
diff --git a/lhext.go b/lhext.go
index d653aca..71e7c1b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -278,6 +278,8 @@ func (l *Lha) mergeOldOnes(old *oldArchive, nafp *io.Writer, hdr *LzHeader) (add
 		}
 		if hdrName(o.hdr) == hdrName(hdr) { /* REPLACE */
 			o.done = true
+		} else if l.isPending(hdrName(o.hdr)) { /* may have to be replaced */
+			continue
 		} else if !l.SortContents || hdrName(o.hdr) < hdrName(hdr) { /* SKIP */
 			if err = l.copyOldOne(old, o, nafp); err != nil {
 				return false, false, err
@@ -287,6 +289,19 @@ func (l *Lha) mergeOldOnes(old *oldArchive, nafp *io.Writer, hdr *LzHeader) (add
 	return true, replace, nil
 }
 
+/* may a file of this name still come */
+func (l *Lha) isPending(name string) bool {
+	if l.RecursiveArchiving {
+		return true
+	}
+	for _, v := range l.pending {
+		if filepath.Base(v) == name {
+			return true
+		}
+	}
+	return false
+}
+
 func hdrName(hdr *LzHeader) string {
 	return string(hdr.Name[:lengthOfStringInByte(hdr.Name)])
 }
@@ -626,6 +641,7 @@ func (l *Lha) updateArchive(appendOne func(name string, old *oldArchive, nafp *i
 	}
 
 	for i = 0; i < l.CmdFilec; i++ {
+		l.pending = l.CmdFilev[i+1 : l.CmdFilec]
 		/* exclude files specified by -x option */
 		if !l.isExcluded(l.CmdFilev[i]) {
 			if err := appendOne(l.CmdFilev[i], old, &nafp); err != nil {
-- 
2.43.0


From 5c7ec32dc65fbb1fefde5c6a674dd356c4585f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:59 +0000
Subject: [PATCH 75/90] fix: record the directories with the / which ends their
 name

---
 header.go | 1 +
 lhext.go  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index ba1e115..e47d81e 100644
--- a/header.go
+++ b/header.go
@@ -106,6 +106,7 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.Name = append([]byte(filename), '/', 0)
 		hdr.UnixMode = uint16(vStat.Mode().Perm()) | uint16(UnixFileDirectory)
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
diff --git a/lhext.go b/lhext.go
index 71e7c1b..573b33d 100644
--- a/lhext.go
+++ b/lhext.go
@@ -295,7 +295,7 @@ func (l *Lha) isPending(name string) bool {
 		return true
 	}
 	for _, v := range l.pending {
-		if filepath.Base(v) == name {
+		if filepath.Base(v) == strings.TrimSuffix(name, "/") {
 			return true
 		}
 	}
-- 
2.43.0


From fdda42fbbacc0f12fd5cbedef2886f0718caad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:46 +0000
Subject: [PATCH 76/90] fix: do not extract a file or a link without name over
 a missing extraction directory

---
 lhext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lhext.go b/lhext.go
index 573b33d..946ee63 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1302,6 +1302,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			Quiet = saveQuiet
 			l.Verbose = saveVerbose
 		} else {
+			if q == "" || q == "." {
+				return 0, fmt.Errorf("cannot extract \"%s\" :it names no file", hdrName(hdr))
+			}
 			if !l.skipFlg {
 
 				upFlag, err = inquireExtract(string(name[:]), l)
@@ -1361,6 +1364,9 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 				/* NAME has trailing SLASH '/', (^_^) */
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
+					if q == "" || q == "." {
+						return 0, fmt.Errorf("cannot extract \"%s\" :it names no file", hdrName(hdr))
+					}
 					if !l.skipFlg {
 						upFlag, err = inquireExtract(string(name[:]), l)
 						if !upFlag && !l.Force {
-- 
2.43.0


From 0653c012eb41ef104fbc982789ab713f9ecb6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 77/90] fix: commands and codecs used before anything else
 computed CRCs with an empty table

MakeCrcTable was called by the methods of Lha and by the program only, so the
exported CommandExtract, CommandList, CommandAdd, EncodeLzhuf, DecodeLzhuf and
GetHeader reported CRC errors, or wrote wrong CRCs, unless one of those had
been used earlier in the process.
---
 crcio.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crcio.go b/crcio.go
index 134446d..bb1465e 100644
--- a/crcio.go
+++ b/crcio.go
@@ -28,6 +28,11 @@ func calcCrc(crc uint, p *[]byte, pIndex, n uint) uint {
 	return crc
 }
 
+/* the table is there before anything is called */
+func init() {
+	MakeCrcTable()
+}
+
 func MakeCrcTable() {
 	var i, j, r uint
 	for i = 0; i <= ucharMax; i++ {
-- 
2.43.0


From 79bb0914bdae9a341f8419be803a9a2bb82673fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 78/90] fix: list the permissions of OS-9/68K entries

---
 lhext.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 946ee63..a29eae3 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1503,9 +1503,7 @@ func (l *Lha) listOne(hdr *LzHeader) {
 
 		fmt.Printf("%s ", modebits[:10])
 
-	case ExtendOs68k:
-		/**/
-	case ExtendXosk: /**/
+	case ExtendOs68k, ExtendXosk: /**/
 		mode = int(hdr.UnixMode)
 		if mode&oskDirectoryPerm != 0 {
 			modebits[0] = 'd'
-- 
2.43.0


From e90d6afa9018b3ca22e6841cb0051ab927bee0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 79/90] fix: do not empty an archive whose backup would be
 itself

---
 lhext.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lhext.go b/lhext.go
index a29eae3..6c5278a 100644
--- a/lhext.go
+++ b/lhext.go
@@ -755,6 +755,15 @@ func Copy(src, dst string) error {
 	}
 	defer in.Close()
 
+	/* creating the copy must not empty what is to be copied */
+	si, err := in.Stat()
+	if err != nil {
+		return err
+	}
+	if di, err := os.Stat(dst); err == nil && os.SameFile(si, di) {
+		return fmt.Errorf("\"%s\" and \"%s\" are the same file", src, dst)
+	}
+
 	out, err := os.Create(dst)
 	if err != nil {
 		return err
-- 
2.43.0


From a5978dd4f3cbbac4c076308ed799105148171deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:30 +0000
Subject: [PATCH 80/90] fix: do not overwrite a source with the backup of the
 archive

---
 lhext.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lhext.go b/lhext.go
index 6c5278a..711b5f9 100644
--- a/lhext.go
+++ b/lhext.go
@@ -481,6 +481,10 @@ func (l *Lha) appendIt(name string, old *oldArchive, nafp *io.Writer) error {
 		fmt.Printf("specified file \"%s\" is the generating archive. skip", name)
 		return nil
 	}
+	if l.isBackup(name) {
+		/* making the backup would overwrite it */
+		return fmt.Errorf("specified file \"%s\" is the backup of the archive", name)
+	}
 
 	stbuf, err = os.Lstat(name)
 	if err != nil {
@@ -542,6 +546,22 @@ func (l *Lha) isArchive(name string) bool {
 	return false
 }
 
+/* is it what the backup of the archive is written to */
+func (l *Lha) isBackup(name string) bool {
+	if !l.BackupOldArchive {
+		return false
+	}
+	if _, err := os.Stat(l.archiveName); err != nil {
+		return false /* nothing to back up */
+	}
+	fi, err := os.Stat(name)
+	if err != nil {
+		return false
+	}
+	bi, err := os.Stat(modifyFilenameExtenstion(l.archiveName, backupNameExtension))
+	return err == nil && os.SameFile(fi, bi)
+}
+
 /* is it excluded by the -x option */
 func (l *Lha) isExcluded(name string) bool {
 	for j := 0; j < len(l.ExcludeFiles); j++ {
-- 
2.43.0


From 86dac7f3bbde3c36a627b07e1f18011361b8bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:12 +0000
Subject: [PATCH 81/90] fix: an automatic update left the files it found in the
 settings

---
 lhext.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lhext.go b/lhext.go
index 711b5f9..1717455 100644
--- a/lhext.go
+++ b/lhext.go
@@ -637,6 +637,10 @@ func (l *Lha) updateArchive(appendOne func(name string, old *oldArchive, nafp *i
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 && old != nil {
+		/* they are those of this update only */
+		defer func(filev []string, filec int) {
+			l.CmdFilev, l.CmdFilec = filev, filec
+		}(l.CmdFilev, l.CmdFilec)
 		findUpdateFiles(old, l)
 	}
 
-- 
2.43.0


From e5733865cb7507b1718612498610e1487241d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:13 +0000
Subject: [PATCH 82/90] fix: decompressing changed the header level to write

---
 lha.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lha.go b/lha.go
index 65cc282..765ae30 100644
--- a/lha.go
+++ b/lha.go
@@ -137,13 +137,11 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 }
 
 func (l *Lha) Decompress(header *LzHeader) (err error) {
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractWithHeader(header, l)
 }
 
 func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
-	l.HeaderLevel = 2
 	MakeCrcTable()
 	return extractBytesWithHeader(header, l)
 }
-- 
2.43.0


From 70efc585ebb21d6fa5328d4f80b20ba7e85d60f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 83/90] fix: compressing left its method and header level in
 the settings

---
 lha.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lha.go b/lha.go
index 765ae30..efd3ed8 100644
--- a/lha.go
+++ b/lha.go
@@ -147,27 +147,23 @@ func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
 }
 
 func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, headerLevel int) (err error) {
-	l.HeaderLevel = headerLevel
 	MakeCrcTable()
-	l.CompressMethod = compressMethod
-	defer l.setFile(filename)()
+	defer l.setFile(filename, compressMethod, headerLevel)()
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
-	l.HeaderLevel = headerLevel
 	MakeCrcTable()
-	l.CompressMethod = compressMethod
-	defer l.setFile(fileToAdd)()
+	defer l.setFile(fileToAdd, compressMethod, headerLevel)()
 	return CommandAdd(l.archiveName, l)
 }
 
-/* operate on this file only; call the result to come back to the former ones */
-func (l *Lha) setFile(name string) func() {
-	filev, filec := l.CmdFilev, l.CmdFilec
-	l.CmdFilev, l.CmdFilec = []string{name}, 1
+/* operate on this file only; call the result to come back to the former settings */
+func (l *Lha) setFile(name string, compressMethod, headerLevel int) func() {
+	filev, filec, method, level := l.CmdFilev, l.CmdFilec, l.CompressMethod, l.HeaderLevel
+	l.CmdFilev, l.CmdFilec, l.CompressMethod, l.HeaderLevel = []string{name}, 1, compressMethod, headerLevel
 	return func() {
-		l.CmdFilev, l.CmdFilec = filev, filec
+		l.CmdFilev, l.CmdFilec, l.CompressMethod, l.HeaderLevel = filev, filec, method, level
 	}
 }
-- 
2.43.0


From cac4d4dd3eb6e174b1278c0e2800b05e2097d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:13 +0000
Subject: [PATCH 84/90] fix: moved directories stayed or went by chance

---
 lhext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lhext.go b/lhext.go
index 1717455..ba652f7 100644
--- a/lhext.go
+++ b/lhext.go
@@ -381,7 +381,13 @@ func reportArchiveNameIfDifferent(l *Lha) {
 }
 
 func removeFiles(filev map[string]string) {
+	var names []string
 	for _, name := range filev {
+		names = append(names, name)
+	}
+	/* a directory comes after what was in it */
+	sort.Sort(sort.Reverse(sort.StringSlice(names)))
+	for _, name := range names {
 		os.Remove(name)
 	}
 }
-- 
2.43.0


From 3a148a97d673ab27836676468b44ff4c96b24be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 85/90] fix: names too long for a level 0 header were cut

---
 header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/header.go b/header.go
index e47d81e..eda47d8 100644
--- a/header.go
+++ b/header.go
@@ -1192,6 +1192,15 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		return fmt.Errorf("the length of pathname \"%s\" is too long", pathname)
 	}
 
+	/* a level 0 header has all of it in its first 257 bytes */
+	limit := 255 - iLevel0HeaderSize + 2
+	if GenericFormat {
+		limit = 255 - iGenericHeaderSize + 2
+	}
+	if hdr.HeaderLevel == 0 && lengthOfStringInByte(pathname) > limit {
+		return fmt.Errorf("the length of pathname \"%s\" is too long for a level 0 header", hdrName(hdr))
+	}
+
 	switch hdr.HeaderLevel {
 	case 0:
 		headerSize = hdr.writeHeaderLevel0(data, pathname)
-- 
2.43.0


From df7d0a04d4634e199fa4bb83d6b3f2247e788361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 86/90] fix: files of 4 GiB and more were archived with a wrong
 size

---
 header.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/header.go b/header.go
index eda47d8..be3dbe7 100644
--- a/header.go
+++ b/header.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path"
 	"path/filepath"
@@ -1213,6 +1214,15 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 
 	}
 
+	/* the size fields have 32 bits, on level 1 the packed size includes the extended headers */
+	packedSize := int64(hdr.PackedSize)
+	if hdr.HeaderLevel == 1 {
+		packedSize += int64(headerSize - 2 - int(data[iHeaderSize]))
+	}
+	if packedSize > math.MaxUint32 || int64(hdr.OriginalSize) > math.MaxUint32 {
+		return fmt.Errorf("\"%s\" is too large for an archive", hdrName(hdr))
+	}
+
 	_, err := (*fp).Write(data[:headerSize])
 	if err != nil {
 		return fmt.Errorf("cannot write to temporary file error :%v", err.Error())
-- 
2.43.0


From c4716f39482d91fe1272c1ba5588079b6d6caa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:26 +0000
Subject: [PATCH 87/90] fix: an update changed the permissions of the archive

---
 lhext.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lhext.go b/lhext.go
index ba652f7..6dc623b 100644
--- a/lhext.go
+++ b/lhext.go
@@ -694,6 +694,16 @@ func (l *Lha) updateArchive(appendOne func(name string, old *oldArchive, nafp *i
 		if err := writeArchiveTail(&nafp); err != nil {
 			return fmt.Errorf("cannot write to temporary file error :%v", err.Error())
 		}
+		if oldArchiveExist && l.newArchiveName == l.archiveName {
+			/* the archive keeps its permissions */
+			fi, err := fr.Stat()
+			if err == nil {
+				err = fw.Chmod(fi.Mode().Perm())
+			}
+			if err != nil {
+				return fmt.Errorf("cannot set the permissions of the archive error :%v", err.Error())
+			}
+		}
 		if err := fw.Close(); err != nil {
 			return fmt.Errorf("cannot write to temporary file error :%v", err.Error())
 		}
-- 
2.43.0


From 8788c3f7ea2c9e60a33cd5ee7d9e56bd3c4044db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:00 +0000
Subject: [PATCH 88/90] fix: report an archive that cannot be searched for its
 first header when extracting

---
 lhext.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lhext.go b/lhext.go
index 6dc623b..3d91874 100644
--- a/lhext.go
+++ b/lhext.go
@@ -961,7 +961,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return outputData, err
+		}
 	}
 
 	/* extract each files */
@@ -1022,7 +1024,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
 	/* extract each files */
@@ -1084,7 +1088,9 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
 	/* extract each files */
-- 
2.43.0


From 4f4faff26032bb0d59e0c888bfb509983dc90a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:30 +0000
Subject: [PATCH 89/90] fix: a file that grew while it was archived and does
 not shrink became a damaged entry

---
 lhext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 3d91874..30b868f 100644
--- a/lhext.go
+++ b/lhext.go
@@ -436,7 +436,7 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return err
 	}
 
-	if vPackedSize < vOriginalSize {
+	if vPackedSize < vOriginalSize && !l.unpackable {
 		//	next_pos = 0 //ftello(nafp)
 	} else { /* retry by stored method */
 		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From dadf944a2002ee4b6bf35b875e9c8a6830608e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:06 +0000
Subject: [PATCH 90/90] fix: a dry run of an extraction names the files which
 it would create

---
 lhext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lhext.go b/lhext.go
index 30b868f..e7daecd 100644
--- a/lhext.go
+++ b/lhext.go
@@ -114,6 +114,9 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	stbuf, err := os.Lstat(name)
 
 	if os.IsNotExist(err) {
+		if l.Noexec {
+			fmt.Printf("EXTRACT %s\n", name)
+		}
 		return true, nil
 	}
 	if err != nil {
-- 
2.43.0

