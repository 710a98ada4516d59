From cd67d4c03899386cf94647390302aaab2aae6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 01/28] fix: split incompressible data larger than 65535 bytes
 into several stored blocks

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..0442812 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,6 +1010,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for uint(len(data)) > uint(math.MaxUint16) {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From c69e7973fe688e657f27b085141bc4db10f3ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 02/28] fix: limit Huffman code lengths to what the DEFLATE
 format can represent

---
 huffman.go | 17 +++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index e920bc7..abad34d 100644
--- a/huffman.go
+++ b/huffman.go
@@ -16,6 +16,11 @@ const (
 	physicalNumXCodes  = 19
 )
 
+const (
+	maxLLDCodeSize = 15 // bit lengths are transmitted as symbols 0 .. 15
+	maxXCodeSize   = 7  // bit lengths are transmitted as 3-bit integers
+)
+
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
 
 var (
@@ -67,6 +72,18 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// initLimitedEncoder initializes an Encoder such that no code is longer than
+// maxSize bits, flattening the frequencies only as far as necessary.
+func initLimitedEncoder(h *huffman.Encoder, numSymbols int, frequencies []uint32, maxSize byte) {
+	h.Init(numSymbols, frequencies)
+	for h.MaxSize() > maxSize {
+		for i, freq := range frequencies {
+			frequencies[i] = (freq + 1) / 2
+		}
+		h.Init(numSymbols, frequencies)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index 0442812..c403d4b 100644
--- a/writer.go
+++ b/writer.go
@@ -997,10 +997,10 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initLimitedEncoder(&hLL, physicalNumLLCodes, freqLL, maxLLDCodeSize)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initLimitedEncoder(&hD, physicalNumDCodes, freqD, maxLLDCodeSize)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1162,7 +1162,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initLimitedEncoder(&hX, physicalNumXCodes, freqX, maxXCodeSize)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 3ef0778c64bfb0cb4e920be1477267c0ad886711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/28] fix: do not panic on a gzip extra field whose last
 record is truncated

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..97442ea 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,9 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > length-index {
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 89525c5f12a0835668d096d02786bd7ea917064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 04/28] fix: stop decoding a block that declares too many
 Huffman codes

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 52b638c..c250f9e 100644
--- a/reader.go
+++ b/reader.go
@@ -976,9 +976,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From 4c13c2aacfbc055db75e04bb8d448981bde387f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/28] fix: do not ignore further streams which are already
 buffered when the source ends

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index c250f9e..85f58b8 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for fr.inputError == nil || !fr.inputBuffer.IsEmpty() {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From b49cdaa79c7e6333c3be7227283f2030611ca332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 06/28] fix: stop processing the input once a block failed to
 decode

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 85f58b8..d452ef4 100644
--- a/reader.go
+++ b/reader.go
@@ -342,6 +342,10 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
+		if fr.outputErrorWasSet {
+			break
+		}
+
 		if !fr.readFooter() {
 			break
 		}
-- 
2.43.0


From fcc4da76c00932d096215973b5d55117e4c3d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 07/28] fix: do not write to the window from a slice of the
 window itself

---
 reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index d452ef4..38c808a 100644
--- a/reader.go
+++ b/reader.go
@@ -80,6 +80,8 @@ type Reader struct {
 
 	tmp [4]byte
 
+	matchBuffer [258]byte
+
 	// fields below are protected by mu2
 
 	outputError  error
@@ -857,8 +859,10 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
-		fr.decodeBufferWrite(p)
-		length -= uint(len(p))
+		// p points into the window, which is about to be modified.
+		n := copy(fr.matchBuffer[:], p)
+		fr.decodeBufferWrite(fr.matchBuffer[:n])
+		length -= uint(n)
 
 		for length != 0 {
 			ch, err := fr.window.LookupByte(distance)
-- 
2.43.0


From baae6010fbd6ec87f9c74dc4594b72f1b0981eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 08/28] fix: reject back-references to before the start of the
 stream

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 38c808a..81580f6 100644
--- a/reader.go
+++ b/reader.go
@@ -854,6 +854,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		if available := fr.outputBytesStream + uint64(fr.decodeBuffer.Len()) + uint64(len(fr.dict)); uint64(distance) > available {
+			fr.corruptf("distance %d > available history %d", distance, available)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
-- 
2.43.0


From d1d64658e3367d0917eeedbccdfad4df76f897c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 09/28] fix: recognize a preset dictionary even if it consists
 of zero bytes

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 81580f6..f3cf4c8 100644
--- a/reader.go
+++ b/reader.go
@@ -520,7 +520,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -531,7 +531,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From 72bab7aea5a80630ccd67da9fb279f65c1b99292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 10/28] fix: do not deadlock in Reader.Reset while
 decompression is in progress

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index f3cf4c8..fee20fe 100644
--- a/reader.go
+++ b/reader.go
@@ -201,11 +201,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From 5f0a80e84948844193a34542885f702372d321d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 11/28] fix: forget pending bits and byte counters of the
 previous input in Reader.Reset

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index fee20fe..a3037a7 100644
--- a/reader.go
+++ b/reader.go
@@ -217,6 +217,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
 
+	fr.inputBytesTotal = 0
+	fr.outputBytesTotal = 0
+	fr.ibBlock = 0
+	fr.ibLen = 0
+
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
 
-- 
2.43.0


From 0f6c504cb9693b3ea7a5706f83b81b7875a87268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 12/28] fix: report input ending inside a Huffman code as such
 and not as corruption

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index a3037a7..50e68a2 100644
--- a/reader.go
+++ b/reader.go
@@ -1146,6 +1146,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From 508955f0bb2fa592533f6b48276a9473bb93a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 13/28] fix: auto-detect the format even if only one byte is
 buffered so far

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 50e68a2..58ba609 100644
--- a/reader.go
+++ b/reader.go
@@ -461,6 +461,10 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	for fr.inputBuffer.Len() < 2 && fr.inputError == nil {
+		fr.inputBufferFill()
+	}
+
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
-- 
2.43.0


From a8c6b0a633b512ac1aac326ef63fd9383fbc954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 14/28] fix: deliver all decoded data before reporting an error

---
 reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reader.go b/reader.go
index 58ba609..6347673 100644
--- a/reader.go
+++ b/reader.go
@@ -1399,6 +1399,12 @@ func (fr *Reader) closeWithError(err error) {
 		return
 	}
 
+	// Read callers must not see the error before the data which precedes it.
+	fr.decodeBufferMustFlush()
+	if fr.outputErrorWasSet {
+		return
+	}
+
 	fr.mu2.Lock()
 	fr.outputError = err
 	fr.cv1.Broadcast()
-- 
2.43.0


From 396479b7da2c549e73ffa702bfc5b515ab3b869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 15/28] fix: lock Reader.UnderlyingReader like the other
 accessors

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 6347673..f60d2ce 100644
--- a/reader.go
+++ b/reader.go
@@ -187,7 +187,10 @@ func (fr *Reader) Tracers() []Tracer {
 
 // UnderlyingReader returns the io.Reader which this Reader uses.
 func (fr *Reader) UnderlyingReader() io.Reader {
-	return fr.r
+	fr.mu1.Lock()
+	r := fr.r
+	fr.mu1.Unlock()
+	return r
 }
 
 // Reset re-initializes this Reader with the given io.Reader and options.  Any
-- 
2.43.0


From 19df5d3d3657b92f048dd5f012511be6e417c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 16/28] fix: deliver decoded data without waiting for the input
 buffer to fill up

---
 reader.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/reader.go b/reader.go
index f60d2ce..51d8812 100644
--- a/reader.go
+++ b/reader.go
@@ -1178,13 +1178,32 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
-	if fr.stopIsForced {
-		fr.inputError = io.EOF
-		return
-	}
+	// Everything decoded so far must reach the Read callers before we wait
+	// for more input, and waiting must not block the other methods.
+	fr.decodeBufferMustFlush()
+
+	size := fr.inputBuffer.Size()
+	for fr.inputError == nil {
+		if fr.stopIsForced {
+			fr.inputError = io.EOF
+			return
+		}
 
-	_, err := fr.inputBuffer.ReadFrom(fr.r)
-	fr.inputError = err
+		r := fr.r
+		p := fr.inputBuffer.PrepareBulkWrite(size)
+
+		fr.mu1.Unlock()
+		nn, err := r.Read(p)
+		fr.mu1.Lock()
+
+		assert.Assertf(nn >= 0, "Read() returned %d, which is < 0", nn)
+		assert.Assertf(nn <= len(p), "Read() returned %d, which is > len(buffer) %d", nn, len(p))
+		fr.inputBuffer.CommitBulkWrite(uint(nn))
+		fr.inputError = err
+		if nn != 0 {
+			return
+		}
+	}
 }
 
 func (fr *Reader) inputBufferRead(p []byte) ([]byte, bool) {
@@ -1419,8 +1438,8 @@ func (fr *Reader) closeWithError(err error) {
 func (fr *Reader) sendEvent(event Event) {
 	event.InputBytesTotal = fr.inputBytesTotal
 	event.InputBytesStream = fr.inputBytesStream
-	event.OutputBytesTotal = fr.outputBytesTotal
-	event.OutputBytesStream = fr.outputBytesStream
+	event.OutputBytesTotal = fr.outputBytesTotal + uint64(fr.decodeBuffer.Len())
+	event.OutputBytesStream = fr.outputBytesStream + uint64(fr.decodeBuffer.Len())
 	event.NumStreams = fr.numStreams
 	event.Format = fr.actualFormat
 	for _, tr := range fr.tracers {
-- 
2.43.0


From 3c02546d4ffd1932ee9c841d5077b8eeaf0447d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 17/28] fix: write out all whole bytes in PartialFlush

---
 writer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/writer.go b/writer.go
index c403d4b..d6b5a65 100644
--- a/writer.go
+++ b/writer.go
@@ -529,6 +529,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -912,6 +915,26 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushBytes writes out all complete bytes of the pending bits,
+// leaving fewer than 8 bits pending.
+func (fw *Writer) outputBitsFlushBytes() bool {
+	n := fw.obLen / 8
+	if n == 0 {
+		return true
+	}
+
+	restLen := fw.obLen % 8
+	restBlock := fw.obBlock >> (8 * n)
+	fw.obLen = 8 * n
+	fw.obBlock = fw.obBlock & makeMask(fw.obLen)
+	if !fw.outputBitsFlush() {
+		return false
+	}
+	fw.obLen = restLen
+	fw.obBlock = restBlock
+	return true
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 83b5d131f67a485a5dc29ce26aa42d794a816230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 18/28] fix: honor FixedStrategy

---
 writer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/writer.go b/writer.go
index d6b5a65..9752e59 100644
--- a/writer.go
+++ b/writer.go
@@ -1013,10 +1013,10 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
-	return compressTokens(fw, data, *tokens, false)
+	return compressTokens(fw, data, *tokens, false, fw.strategy == FixedStrategy)
 }
 
-func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) bool {
+func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool, staticOnly bool) bool {
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
@@ -1031,8 +1031,14 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	var staticCounter bitcounter
 	writeStaticBlock(&staticCounter, tokens, isFinal)
 
+	useStatic := staticOnly || staticCounter.length() <= dynamicCounter.length()
+	huffmanLength := dynamicCounter.length()
+	if staticOnly {
+		huffmanLength = staticCounter.length()
+	}
+
 	storedLength := (uint64(len(data)) << 3) + 35
-	if storedLength < dynamicCounter.length() {
+	if storedLength < huffmanLength {
 		for uint(len(data)) > uint(math.MaxUint16) {
 			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
 				return false
@@ -1041,7 +1047,7 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
-	if staticCounter.length() <= dynamicCounter.length() {
+	if useStatic {
 		return writeStaticBlock(bw, tokens, isFinal)
 	}
 	return writeDynamicBlock(bw, &hLL, &hD, tokens, isFinal)
-- 
2.43.0


From 3f2fa27dbd71fa82b120f8e5ff823ca13a2884be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 19/28] fix: forget pending bits in Writer.Reset

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 9752e59..e747efc 100644
--- a/writer.go
+++ b/writer.go
@@ -240,6 +240,8 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obBlock = 0
+	fw.obLen = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From d8acd2cee6e6da4bc374005750c05aae13d641c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 20/28] fix: start counting from zero again in Writer.Reset

---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index e747efc..61ccedb 100644
--- a/writer.go
+++ b/writer.go
@@ -243,6 +243,10 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 	fw.obBlock = 0
 	fw.obLen = 0
 
+	fw.inputBytesTotal = 0
+	fw.outputBytesTotal = 0
+	fw.numStreams = 0
+
 	if len(opts) == 0 {
 		return
 	}
-- 
2.43.0


From 268a69d330b8407f4fd91c893683d5dcf7da848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 21/28] fix: do not carry detected header fields over to the
 next stream

---
 writer.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/writer.go b/writer.go
index 61ccedb..c297a05 100644
--- a/writer.go
+++ b/writer.go
@@ -574,19 +574,23 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
-	if fw.header.DataType == UnknownData {
-		fw.header.DataType = BinaryData
+	// The fields filled in below apply to this stream only.
+	h := new(Header)
+	*h = fw.header
+
+	if h.DataType == UnknownData {
+		h.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-			fw.header.DataType = TextData
+			h.DataType = TextData
 		}
 	}
 
-	if fw.header.OSType == OSTypeUnknown {
-		fw.header.OSType = OSTypeUnix
+	if h.OSType == OSTypeUnknown {
+		h.OSType = OSTypeUnix
 	}
 
-	fw.header.WindowBits = fw.wbits
-	fw.header.CompressLevel = fw.clevel
+	h.WindowBits = fw.wbits
+	h.CompressLevel = fw.clevel
 
 	var ok bool
 	switch fw.format {
@@ -595,7 +599,7 @@ func (fw *Writer) writeHeader() bool {
 	case ZlibFormat:
 		ok = fw.writeHeaderZlib()
 	case GZIPFormat:
-		ok = fw.writeHeaderGZIP()
+		ok = fw.writeHeaderGZIP(h)
 	default:
 		assert.Raisef("Format %#v not implemented", fw.format)
 	}
@@ -604,8 +608,6 @@ func (fw *Writer) writeHeader() bool {
 		return false
 	}
 
-	h := new(Header)
-	*h = fw.header
 	fw.sendEvent(Event{
 		Type:   StreamHeaderEvent,
 		Header: h,
@@ -696,7 +698,7 @@ func (fw *Writer) writeFooterZlib(a32 uint32) bool {
 	return fw.outputBufferWrite(storage[0:4])
 }
 
-func (fw *Writer) writeHeaderGZIP() bool {
+func (fw *Writer) writeHeaderGZIP(h *Header) bool {
 	fw.outputBytesCRC32.Reset()
 
 	var header [10]byte
@@ -712,15 +714,15 @@ func (fw *Writer) writeHeaderGZIP() bool {
 	header[8] = 0x00 // XFL (0x00 = other)
 	header[9] = 0xff // OS  (0xff = unknown)
 
-	bits0 := writeHeaderGZIPDataType(fw.header)
-	bits1, func1 := writeHeaderGZIPExtraData(fw.header)
-	bits2, func2 := writeHeaderGZIPFileName(fw.header)
-	bits3, func3 := writeHeaderGZIPComment(fw.header)
+	bits0 := writeHeaderGZIPDataType(*h)
+	bits1, func1 := writeHeaderGZIPExtraData(*h)
+	bits2, func2 := writeHeaderGZIPFileName(*h)
+	bits3, func3 := writeHeaderGZIPComment(*h)
 
 	header[3] |= (bits0 | bits1 | bits2 | bits3)
 
-	if !fw.header.LastModified.IsZero() {
-		s64 := fw.header.LastModified.Unix()
+	if !h.LastModified.IsZero() {
+		s64 := h.LastModified.Unix()
 		u32 := uint32(uint64(s64))
 		binary.LittleEndian.PutUint32(header[4:8], u32)
 	}
@@ -731,7 +733,7 @@ func (fw *Writer) writeHeaderGZIP() bool {
 		header[8] = 0x02
 	}
 
-	if osByte, found := gzipOSTypeEncodeTable[fw.header.OSType]; found {
+	if osByte, found := gzipOSTypeEncodeTable[h.OSType]; found {
 		header[9] = osByte
 	}
 
@@ -762,7 +764,7 @@ func writeHeaderGZIPExtraData(header Header) (byte, func(*Writer) bool) {
 
 	// 0x04 = FEXTRA
 	return 0x04, func(fw *Writer) bool {
-		xdata := fw.header.ExtraData.AsBytes()
+		xdata := header.ExtraData.AsBytes()
 		xlen := uint16(len(xdata))
 		ok := fw.outputBufferWriteU16(binary.LittleEndian, xlen)
 		ok = ok && fw.outputBufferWrite(xdata)
-- 
2.43.0


From 8974b6b190ec310306e6342ab0c9db2104d7607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 22/28] fix: make Reader.Close effective before the first Read

---
 reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reader.go b/reader.go
index 51d8812..5f0845c 100644
--- a/reader.go
+++ b/reader.go
@@ -301,6 +301,15 @@ func (fr *Reader) Read(p []byte) (int, error) {
 //
 func (fr *Reader) Close() error {
 	fr.mu1.Lock()
+	if !fr.readThreadWasStarted {
+		// There is no thread to stop, but none may be started later on.
+		fr.readThreadWasStarted = true
+		fr.readThreadWasStopped = true
+		fr.outputErrorWasSet = true
+		fr.mu2.Lock()
+		fr.outputError = context.Canceled // FIXME
+		fr.mu2.Unlock()
+	}
 	fr.stopReadThreadLocked()
 	fr.mu1.Unlock()
 	return nil
-- 
2.43.0


From 3dac3f328becc9e7afc3a44e72085aa541c2f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 23/28] fix: do not hand out the shared code length tables to
 tracers

---
 reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 5f0845c..95ddd44 100644
--- a/reader.go
+++ b/reader.go
@@ -822,8 +822,9 @@ func (fr *Reader) readFlateBlockStaticHuffman(isFinal bool) bool {
 			IsFinal: isFinal,
 		},
 		Trees: &TreesEvent{
-			LiteralLengthSizes: fr.hLL.SizeBySymbol(),
-			DistanceSizes:      fr.hD.SizeBySymbol(),
+			// Tracers must not get hold of the shared decoders' tables.
+			LiteralLengthSizes: append([]byte(nil), fr.hLL.SizeBySymbol()...),
+			DistanceSizes:      append([]byte(nil), fr.hD.SizeBySymbol()...),
 		},
 	})
 
-- 
2.43.0


From 3d48f4257df221722cc2e25f4812cf979800a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 24/28] fix: do not share extra data records between callers,
 streams and tracers

---
 header.go | 17 +++++++++++++++++
 writer.go |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/header.go b/header.go
index 97442ea..72c9564 100644
--- a/header.go
+++ b/header.go
@@ -29,6 +29,23 @@ type ExtraDataRecord struct {
 	Bytes []byte
 }
 
+// clone returns a copy of this ExtraData which shares no memory with it.
+func (xd ExtraData) clone() ExtraData {
+	if xd.Records == nil {
+		return ExtraData{}
+	}
+
+	records := make([]ExtraDataRecord, len(xd.Records))
+	for index, rec := range xd.Records {
+		records[index].ID = rec.ID
+		if rec.Bytes != nil {
+			records[index].Bytes = make([]byte, len(rec.Bytes))
+			copy(records[index].Bytes, rec.Bytes)
+		}
+	}
+	return ExtraData{Records: records}
+}
+
 // Parse parses the given bytes as an ExtraData field.
 func (xd *ExtraData) Parse(raw []byte) {
 	*xd = ExtraData{}
diff --git a/writer.go b/writer.go
index c297a05..475e734 100644
--- a/writer.go
+++ b/writer.go
@@ -299,6 +299,7 @@ func (fw *Writer) SetHeader(header Header) error {
 	errlist = checkHeaderExtraData(header, errlist)
 
 	if len(errlist) == 0 {
+		header.ExtraData = header.ExtraData.clone()
 		fw.mu.Lock()
 		fw.header = header
 		fw.mu.Unlock()
@@ -577,6 +578,7 @@ func (fw *Writer) writeHeader() bool {
 	// The fields filled in below apply to this stream only.
 	h := new(Header)
 	*h = fw.header
+	h.ExtraData = fw.header.ExtraData.clone()
 
 	if h.DataType == UnknownData {
 		h.DataType = BinaryData
-- 
2.43.0


From f49a70a899798c37cbffed13646b4800f69bafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 25/28] fix: report a source failure after the first byte as
 such when auto-detecting

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 95ddd44..89e7470 100644
--- a/reader.go
+++ b/reader.go
@@ -479,6 +479,11 @@ func (fr *Reader) readHeaderAuto() bool {
 
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
+		if fr.inputError != io.EOF {
+			// The source failed before the format could be told.
+			fr.propagateError(true)
+			return false
+		}
 		return fr.readHeaderRaw()
 	}
 
-- 
2.43.0


From ed3342bbb048cdf96342f35188735b98993e7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 26/28] fix: do not leave a Read blocked across Reader.Reset

---
 reader.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 89e7470..6efe62e 100644
--- a/reader.go
+++ b/reader.go
@@ -86,6 +86,10 @@ type Reader struct {
 
 	outputError  error
 	outputBuffer buffer.Buffer
+
+	// resetCount is the number of Reset calls so far.  It is changed only
+	// while both mu1 and mu2 are held.
+	resetCount uint64
 }
 
 // NewReader constructs and returns a new Reader with the given io.Reader and
@@ -228,6 +232,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
 
+	// Read calls which started before now must not wait for (or consume)
+	// the data of the new io.Reader.
+	fr.resetCount++
+	fr.cv1.Broadcast()
+
 	if len(opts) == 0 {
 		return
 	}
@@ -265,18 +274,22 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 // Read reads from the compressed stream into the provided slice of bytes.
 // Conforms to the io.Reader interface.
 func (fr *Reader) Read(p []byte) (int, error) {
-	fr.startReadThread()
+	resetCount := fr.startReadThread()
 
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
+	if fr.resetCount == resetCount && fr.outputError == nil && fr.outputBuffer.IsEmpty() {
 		fr.cv2.Signal()
-		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
+		for fr.resetCount == resetCount && fr.outputError == nil && fr.outputBuffer.IsEmpty() {
 			fr.cv1.Wait()
 		}
 	}
 
+	if fr.resetCount != resetCount {
+		return 0, context.Canceled // FIXME
+	}
+
 	if fr.outputBuffer.IsEmpty() {
 		return 0, fr.outputError
 	}
@@ -315,14 +328,16 @@ func (fr *Reader) Close() error {
 	return nil
 }
 
-func (fr *Reader) startReadThread() {
+func (fr *Reader) startReadThread() uint64 {
 	fr.mu1.Lock()
 	if !fr.readThreadWasStarted {
 		fr.readThreadWasStarted = true
 		fr.wg.Add(1)
 		go fr.readThread()
 	}
+	resetCount := fr.resetCount
 	fr.mu1.Unlock()
+	return resetCount
 }
 
 func (fr *Reader) stopReadThreadLocked() {
-- 
2.43.0


From f5719cfa17b11230a0262de0e1e62b112e6a5b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 27/28] fix: allow Close and Reset of a Reader at the same time

The WaitGroup could be reused before a previous Wait had returned, which
panics; and the second caller could re-initialize the Reader underneath a
thread which was started after the first caller's Reset.
---
 reader.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/reader.go b/reader.go
index 6efe62e..411b27f 100644
--- a/reader.go
+++ b/reader.go
@@ -19,9 +19,6 @@ import (
 
 // Reader wraps an io.Reader and decompresses the data which flows through it.
 type Reader struct {
-	// wg keeps track of any spawned background threads.
-	wg sync.WaitGroup
-
 	// mu1 protects most Reader fields
 	mu1 sync.Mutex
 
@@ -63,6 +60,7 @@ type Reader struct {
 	outputBytesAdler32   adler32.Hash
 	ibBlock              block
 	ibLen                byte
+	readThreadDone       chan struct{}
 	readThreadWasStarted bool
 	readThreadWasStopped bool
 	outputErrorWasSet    bool
@@ -332,8 +330,8 @@ func (fr *Reader) startReadThread() uint64 {
 	fr.mu1.Lock()
 	if !fr.readThreadWasStarted {
 		fr.readThreadWasStarted = true
-		fr.wg.Add(1)
-		go fr.readThread()
+		fr.readThreadDone = make(chan struct{})
+		go fr.readThread(fr.readThreadDone)
 	}
 	resetCount := fr.resetCount
 	fr.mu1.Unlock()
@@ -341,7 +339,9 @@ func (fr *Reader) startReadThread() uint64 {
 }
 
 func (fr *Reader) stopReadThreadLocked() {
-	if fr.readThreadWasStarted && !fr.readThreadWasStopped {
+	// Close and Reset may be called at the same time, so by the time mu1 is
+	// held again there may be another thread.
+	for fr.readThreadWasStarted && !fr.readThreadWasStopped {
 		fr.mu2.Lock()
 		fr.outputError = context.Canceled // FIXME
 		fr.outputBuffer.Clear()
@@ -352,13 +352,14 @@ func (fr *Reader) stopReadThreadLocked() {
 		fr.outputErrorWasSet = true
 		fr.stopIsForced = true
 
+		done := fr.readThreadDone
 		fr.mu1.Unlock()
-		fr.wg.Wait()
+		<-done
 		fr.mu1.Lock()
 	}
 }
 
-func (fr *Reader) readThread() {
+func (fr *Reader) readThread(done chan<- struct{}) {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
@@ -392,7 +393,7 @@ func (fr *Reader) readThread() {
 	fr.propagateError(false)
 	fr.readThreadWasStopped = true
 	fr.mu1.Unlock()
-	fr.wg.Done()
+	close(done)
 }
 
 func (fr *Reader) readHeader() bool {
-- 
2.43.0


From aae923af014c8a2b91215499362f640d1b985ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 28/28] fix: do not ignore file arguments of the gzip command
 when -c is given

---
 cmd/gzip/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/gzip/main.go b/cmd/gzip/main.go
index 2b32ef7..d811097 100644
--- a/cmd/gzip/main.go
+++ b/cmd/gzip/main.go
@@ -196,7 +196,10 @@ func main() {
 		defer pprof.StopCPUProfile()
 	}
 
-	if flagStdout {
+	// Only standard input can be read so far; do not ignore other arguments.
+	onlyStdin := getopt.NArgs() == 0 || (getopt.NArgs() == 1 && getopt.Arg(0) == "-")
+
+	if flagStdout && onlyStdin {
 		doCompressOrDecompress(os.Stdout, os.Stdin, dict)
 	} else {
 		log.Logger.Fatal().
-- 
2.43.0

