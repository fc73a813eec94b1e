From a1d3db3144628690b44a1fc972b8cee97ddcee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 01/64] fix: bit reader must not take a short or empty read for
 a full one

A single Read may return fewer bytes than asked for, none at all, or data
together with io.EOF. Use io.ReadFull, and count bulk reads in bitsRead.
---
 jxlio/bitreader.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..564424c 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,22 +97,17 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
-	if err != nil {
-		return err
-	}
-
-	if n != int(numBytes) {
-		return errors.New("unable to read all bytes")
-	}
-	return nil
+	// a single Read is allowed to return less than what was asked for.
+	n, err := io.ReadFull(br.stream, buffer[:numBytes])
+	br.bitsRead += uint64(n) << 3
+	return err
 }
 
 // read single bit and will cache the current byte we're working on.
 func (br *BitStreamReader) readBit() (uint8, error) {
 	if br.index == 0 {
 
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -162,7 +157,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 
 	// Read full bytes directly while we need 8+ more bits
 	for bits-bitsRead >= 8 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -174,7 +169,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 	// Read remaining bits (less than 8)
 	remaining := bits - bitsRead
 	if remaining > 0 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 4e8da041e28f39c529563eda4219e4c41a48a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 02/64] fix: bit reader position after Seek, failed ShowBits
 and long skips

Seek left the bit offset inside the old byte, ShowBits moved the position when
it failed, SkipBits ignored short reads and lost count, and Skip overflowed
for 512MB and more.
---
 jxlio/bitreader.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 564424c..6a76f85 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -68,6 +68,10 @@ func (br *BitStreamReader) Seek(offset int64, whence int) (int64, error) {
 	if err != nil {
 		return 0, err
 	}
+
+	// the next read starts on a byte boundary, forget about any partially consumed byte.
+	br.index = 0
+	br.currentByte = 0
 	return n, err
 }
 
@@ -375,7 +379,8 @@ func (br *BitStreamReader) GetBitsCount() uint64 {
 
 func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 
-	curPos, err := br.Seek(0, io.SeekCurrent)
+	// go directly to the stream, as Seek would drop the partially consumed byte.
+	curPos, err := br.stream.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return 0, err
 	}
@@ -384,31 +389,44 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldBitsRead := br.bitsRead
 
 	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
-	}
 
-	_, err = br.Seek(curPos, io.SeekStart)
-	if err != nil {
-		return 0, err
-	}
+	// restore position even if there weren't enough bits to show.
 	br.currentByte = oldCur
 	br.index = oldIndex
 	br.bitsRead = oldBitsRead
+	_, seekErr := br.stream.Seek(curPos, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
+	if seekErr != nil {
+		return 0, seekErr
+	}
 
 	return b, nil
 }
 
 func (br *BitStreamReader) SkipBits(bits uint32) error {
+	return br.skipBits(uint64(bits))
+}
+
+func (br *BitStreamReader) skipBits(bits uint64) error {
 
 	numBytes := bits / 8
 	if numBytes > 0 {
-		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
-		if err != nil {
+		// read (instead of seek) so that skipping past the end is noticed. The last byte is kept
+		// since it may be partially consumed.
+		if numBytes > 1 {
+			n, err := io.CopyN(io.Discard, br.stream, int64(numBytes-1))
+			br.bitsRead += uint64(n) << 3
+			if err != nil {
+				return err
+			}
+		}
+		if _, err := io.ReadFull(br.stream, br.buffer); err != nil {
 			return err
 		}
-		br.currentByte = buffer[numBytes-1]
+		br.bitsRead += 8
+		br.currentByte = br.buffer[0]
 	}
 
 	// read bits so we can keep track of where we are.
@@ -422,7 +440,7 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 }
 
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
+	err := br.skipBits(uint64(bytes) << 3)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 52c8932e11b2c80de79ec39f786fa2160438ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 03/64] fix: prefix code at the very end of the data

GetVLC peeks as many bits as the longest code has, so a bare codestream that
ends with a short code failed with EOF.
---
 entropy/VLCTable.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/entropy/VLCTable.go b/entropy/VLCTable.go
index c422153..6a9e4bd 100644
--- a/entropy/VLCTable.go
+++ b/entropy/VLCTable.go
@@ -2,6 +2,7 @@ package entropy
 
 import (
 	"errors"
+	"io"
 	bbits "math/bits"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
@@ -81,7 +82,14 @@ func NewVLCTableWithSymbols(bits int32, lengths []int32, symbols []int32) (*VLCT
 }
 func (rcvr *VLCTable) GetVLC(reader jxlio.BitReader) (int32, error) {
 
-	index, err := reader.ShowBits(int(rcvr.bits))
+	bits := int(rcvr.bits)
+	index, err := reader.ShowBits(bits)
+	// the last code of the stream may be shorter than the table index, so at the end of the
+	// stream take what is there. SkipBits fails if the code is longer than that.
+	for (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)) && bits > 1 {
+		bits--
+		index, err = reader.ShowBits(bits)
+	}
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 862f808b3a35ee7a3e1c0bdfbeca5a60d3d86541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 04/64] fix: util.Add overwrote the element after the inserted
 one

append on slice[:index] writes into the slice being copied from when it has
spare capacity. A palette followed by extra channels lost a channel.
---
 util/misc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/misc.go b/util/misc.go
index 475cbaa..90c6e5b 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -94,9 +94,10 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
-	newSlice = append(newSlice, slice[index:]...)
-	return newSlice
+	newSlice := make([]T, 0, len(slice)+1)
+	newSlice = append(newSlice, slice[:index]...)
+	newSlice = append(newSlice, elem)
+	return append(newSlice, slice[index:]...)
 }
 
 type Dimension struct {
-- 
2.43.0


From d672834b264890c7d7e6a31a803ea74d44551ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 05/64] fix: report read errors inside an MA tree instead of
 panicking

---
 frame/MATree.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/frame/MATree.go b/frame/MATree.go
index be99ee5..a9ba677 100644
--- a/frame/MATree.go
+++ b/frame/MATree.go
@@ -55,7 +55,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 		}
 
 		if property >= 0 {
-			value := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 0)))
+			symbol, err := tryReadSymbol(stream, reader, 0)
+			if err != nil {
+				return nil, err
+			}
+			value := jxlio.UnpackSigned(uint32(symbol))
 			leftChild := len(nodes) + nodesRemaining + 1
 			node.property = property
 			node.predictor = -1
@@ -76,7 +80,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 				return nil, errors.New("invalid predictor value")
 			}
 
-			offset := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 3)))
+			symbol, err := tryReadSymbol(stream, reader, 3)
+			if err != nil {
+				return nil, err
+			}
+			offset := jxlio.UnpackSigned(uint32(symbol))
 
 			var mulLog int32
 			if mulLog, err = stream.ReadSymbol(reader, 4); err != nil {
@@ -122,6 +130,20 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 	return mt, nil
 }
 
+// tryReadSymbol turns the panic, with which TryReadSymbol reports a read error, back into an error.
+func tryReadSymbol(stream entropy.EntropyStreamer, reader jxlio.BitReader, context int) (symbol int32, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(error)
+			if !ok {
+				panic(r)
+			}
+			err = e
+		}
+	}()
+	return stream.TryReadSymbol(reader, context), nil
+}
+
 func (t *MATreeNode) isLeafNode() bool {
 	return t.property < 0
 }
-- 
2.43.0


From 4e3b113997d7b10df1e4998a71a17c371e5c2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 06/64] fix: frame buffers must not go to the matrix pool while
 in use

decodePassGroupsConcurrent returned the pixel rows of the frame being decoded
to the pool, so that the following filters and later decodes overwrote them.
---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..fb2b609 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -786,8 +786,8 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		// not pooled, as these are the buffers of the frame itself which outlive this function.
+		buffers := make([][][]float32, 3)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From 5f5d1becdea794995d59c121ff5057a1a47df40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 07/64] fix: an undecodable pass group must fail the frame

The error was only logged, and assembling the frame then crashed on the
missing group.
---
 frame/Frame.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index fb2b609..4cc85af 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -678,13 +678,15 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error {
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			return err
 		}
 
 	}
+	return nil
 }
 
 func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
@@ -751,15 +753,22 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if maxGoroutines < 1 {
 		maxGoroutines = 1
 	}
+	workerErrChan := make(chan error, maxGoroutines)
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
-			wg.Done()
+			defer wg.Done()
+			if err := f.startWorker(inputChan, passGroups); err != nil {
+				workerErrChan <- err
+			}
 		}()
 	}
 
 	wg.Wait()
+	close(workerErrChan)
+	if len(workerErrChan) > 0 {
+		return <-workerErrChan
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		j := 0
-- 
2.43.0


From e6a06939032948181f0f87bd195efc3bafdff5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 08/64] fix: report errors of the subsampling inversion

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 4cc85af..5b23592 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -460,7 +460,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	}
 
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
 
 	if f.Header.restorationFilter.gab {
-- 
2.43.0


From bc0c104878d3c562250ca359c0e5ba98d304dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 09/64] fix: damaged input must not bring down the process

Out of range indices in corrupt data panic. In the decoding goroutines nothing
could catch that, which killed the whole process; elsewhere it hit the caller
of Decode and GetImageHeader. Report it as an error.
---
 core/jxl_decoder.go | 18 ++++++++++++--
 frame/Frame.go      | 58 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/core/jxl_decoder.go b/core/jxl_decoder.go
index f9631d7..3bc904b 100644
--- a/core/jxl_decoder.go
+++ b/core/jxl_decoder.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -35,7 +36,19 @@ func NewJXLDecoder(in io.ReadSeeker, opts *options.JXLOptions) *JXLDecoder {
 	return jxl
 }
 
-func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
+// recoverError turns a panic, as damaged files may cause in the depths of the decoder, into an error.
+func recoverError(err *error) {
+	if r := recover(); r != nil {
+		if e, ok := r.(error); ok {
+			*err = fmt.Errorf("invalid data: %w", e)
+		} else {
+			*err = fmt.Errorf("invalid data: %v", r)
+		}
+	}
+}
+
+func (jxl *JXLDecoder) Decode() (img *JXLImage, err error) {
+	defer recoverError(&err)
 
 	jxlImage, err := jxl.decoder.decode()
 	if err != nil {
@@ -45,7 +58,8 @@ func (jxl *JXLDecoder) Decode() (*JXLImage, error) {
 	return jxlImage, nil
 }
 
-func (jxl *JXLDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
+func (jxl *JXLDecoder) GetImageHeader() (imageHeader *bundle.ImageHeader, err error) {
+	defer recoverError(&err)
 
 	header, err := jxl.decoder.GetImageHeader()
 	if err != nil {
diff --git a/frame/Frame.go b/frame/Frame.go
index 5b23592..c601a62 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -595,6 +595,12 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 			defer wg.Done()
 			defer func() { <-sem }()
 
+			defer func() {
+				if r := recover(); r != nil {
+					errChan <- panicError(r)
+				}
+			}()
+
 			reader, err := f.getBitreader(1 + int(id))
 			if err != nil {
 				errChan <- err
@@ -689,7 +695,22 @@ func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error
 	return nil
 }
 
-func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
+// panicError is what the recover of a decoding goroutine reports: damaged input must not take down
+// the whole process.
+func panicError(r any) error {
+	if err, ok := r.(error); ok {
+		return fmt.Errorf("invalid data: %w", err)
+	}
+	return fmt.Errorf("invalid data: %v", r)
+}
+
+func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) (err error) {
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = panicError(r)
+		}
+	}()
 
 	br, err := f.getBitreader(2 + int(f.numLFGroups) + iPass*int(f.numGroups) + iGroup)
 	if err != nil {
@@ -815,6 +836,11 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 					defer wg.Done()
 					sem <- struct{}{}
 					defer func() { <-sem }()
+					defer func() {
+						if r := recover(); r != nil {
+							errChan <- panicError(r)
+						}
+					}()
 
 					passGroup := &passGroups[p][g]
 					var prev *PassGroup
@@ -1061,6 +1087,7 @@ func (f *Frame) performGabConvolution() error {
 		rowsPerWorker := (height + int32(numWorkers) - 1) / int32(numWorkers)
 
 		var wg sync.WaitGroup
+		errChan := make(chan error, min(numWorkers, int(height)))
 		for w := 0; w < numWorkers; w++ {
 			startY := int32(w) * rowsPerWorker
 			endY := startY + rowsPerWorker
@@ -1073,10 +1100,19 @@ func (f *Frame) performGabConvolution() error {
 			wg.Add(1)
 			go func(sy, ey int32) {
 				defer wg.Done()
+				defer func() {
+					if r := recover(); r != nil {
+						errChan <- panicError(r)
+					}
+				}()
 				processRows(sy, ey)
 			}(startY, endY)
 		}
 		wg.Wait()
+		close(errChan)
+		if len(errChan) > 0 {
+			return <-errChan
+		}
 
 		f.Buffer[c] = *newBuffer
 	}
@@ -1378,6 +1414,7 @@ func (f *Frame) performEdgePreservingFilter() error {
 		rowsPerWorker := (height + int32(numWorkers) - 1) / int32(numWorkers)
 
 		var wg sync.WaitGroup
+		errChan := make(chan error, min(numWorkers, int(height)))
 		for w := 0; w < numWorkers; w++ {
 			startY := int32(w) * rowsPerWorker
 			endY := startY + rowsPerWorker
@@ -1390,10 +1427,19 @@ func (f *Frame) performEdgePreservingFilter() error {
 			wg.Add(1)
 			go func(sy, ey int32) {
 				defer wg.Done()
+				defer func() {
+					if r := recover(); r != nil {
+						errChan <- panicError(r)
+					}
+				}()
 				processRows(sy, ey)
 			}(startY, endY)
 		}
 		wg.Wait()
+		close(errChan)
+		if len(errChan) > 0 {
+			return <-errChan
+		}
 
 		for c := 0; c < int(colours); c++ {
 			tmp := f.Buffer[c]
@@ -1512,6 +1558,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 	rows := len(buffer)
 	rowsPerWorker := (rows + maxGoroutines - 1) / maxGoroutines
 	var wg sync.WaitGroup
+	errChan := make(chan error, min(maxGoroutines, rows))
 
 	for i := 0; i < maxGoroutines; i++ {
 		start := i * rowsPerWorker
@@ -1526,6 +1573,11 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 		wg.Add(1)
 		go func(startY, endY int) {
 			defer wg.Done()
+			defer func() {
+				if r := recover(); r != nil {
+					errChan <- panicError(r)
+				}
+			}()
 			for y := startY; y < endY; y++ {
 				for ky := 0; ky < int(k); ky++ {
 					newBuffer[y*int(k)+ky] = make([]float32, len(buffer[y])*int(k))
@@ -1565,6 +1617,10 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 		}(start, end)
 	}
 	wg.Wait()
+	close(errChan)
+	if len(errChan) > 0 {
+		return nil, <-errChan
+	}
 
 	return image.NewImageBufferFromFloats(newBuffer), nil
 
-- 
2.43.0


From f4601231cc1a6da57e3de8e9a867ddeb4c2aed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 10/64] fix: report read errors at the start of the codestream

A failing source made decode and header query return neither an image
nor an error.
---
 core/jxl_codestream_decoder.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..d0a1715 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -41,11 +41,10 @@ func NewJXLCodestreamDecoder(br jxlio.BitReader, opts *options.JXLOptions) *JXLC
 	return jxl
 }
 
-func (jxl *JXLCodestreamDecoder) atEnd() bool {
-	if jxl.bitReader != nil {
-		return jxl.bitReader.AtEnd()
-	}
-	return false
+// checkNotAtEnd makes sure there is data left, and reports why if there isn't.
+func (jxl *JXLCodestreamDecoder) checkNotAtEnd() error {
+	_, err := jxl.bitReader.ShowBits(1)
+	return err
 }
 
 // GetImageHeader just duplicates the first chunk of code from decode. This is so we can get the image size
@@ -68,8 +67,8 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if jxl.atEnd() {
-		return nil, nil
+	if err = jxl.checkNotAtEnd(); err != nil {
+		return nil, err
 	}
 
 	level := int32(jxl.level)
@@ -95,8 +94,8 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 
-	if jxl.atEnd() {
-		return nil, nil
+	if err = jxl.checkNotAtEnd(); err != nil {
+		return nil, err
 	}
 
 	level := int32(jxl.level)
@@ -152,8 +151,8 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 		}
 
-		if jxl.atEnd() {
-			return nil, nil
+		if err = jxl.checkNotAtEnd(); err != nil {
+			return nil, err
 		}
 
 		for {
-- 
2.43.0


From 9d4c6afb4d17baa31966819285652ea1dfe67c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 11/64] fix: lengths of container boxes

Box lengths too small for the box wrapped around, boxes without payload
or lasting until the end of the file panicked, the extended length was
looked for before the box type and long boxes were skipped modulo 2^32.
A container without a codestream made the decoder panic.
---
 core/jxl_codestream_decoder.go |  3 ++
 core/read_jxl_boxes.go         | 76 ++++++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index d0a1715..1b73f0e 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -317,6 +317,9 @@ func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 	if err != nil {
 		return err
 	}
+	if len(boxHeaders) == 0 {
+		return errors.New("no codestream box found")
+	}
 
 	jxl.boxHeaders = boxHeaders
 	jxl.level = br.level
diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..533218b 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -39,7 +40,8 @@ func NewBoxReader(reader jxlio.BitReader) *BoxReader {
 func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 	buffer := make([]byte, 12)
 	err := br.reader.ReadByteArrayWithOffsetAndLength(buffer, 0, 12)
-	if err != nil {
+	// a bare codestream may be shorter than the signature of a container.
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 		return nil, err
 	}
 
@@ -85,31 +87,41 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			return nil, err
 		}
 
+		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		if err != nil {
+			return nil, err
+		}
+		tag := makeTag(boxTag, 0, 4)
+
+		// boxSize is the size of the whole box, in the file the extended size comes after the tag.
 		boxSize := makeTag(boxSizeArray, 0, 4)
+		headerSize := uint64(8)
 		if boxSize == 1 {
 			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
 			if err != nil {
 				return nil, err
 			}
 			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
+			headerSize = 16
+		} else if boxSize == 0 {
+			// box lasts until the end of the file.
+			if boxSize, err = br.bytesLeft(); err != nil {
+				return nil, err
 			}
+			boxSize += headerSize
 		}
-		if boxSize > 0 {
-			boxSize -= 8
+		if boxSize < headerSize || boxSize > math.MaxInt64 {
+			return nil, errors.New("invalid box size")
 		}
-
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
-		if err != nil {
-			return nil, err
-		}
-		tag := makeTag(boxTag, 0, 4)
+		boxSize -= headerSize
 
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
 		case JXLP:
 			// reads next 4 bytes as additional tag?
+			if boxSize < 4 {
+				return nil, errors.New("invalid box size")
+			}
 			err = br.reader.ReadBytesToBuffer(boxTag, 4)
 			if err != nil {
 				return nil, err
@@ -171,16 +183,12 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 		default:
 			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+			s, err := br.SkipFully(int64(boxSize))
+			if err != nil {
+				return nil, err
+			}
+			if s != 0 {
+				return nil, errors.New("truncated extra box")
 			}
 		}
 	}
@@ -188,8 +196,30 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 // returns number of bytes that were NOT skipped.
 func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+	for i > 0 {
+		n, err := br.reader.Skip(uint32(min(i, math.MaxUint32)))
+		i -= n
+		if err != nil {
+			return i, err
+		}
+	}
+	return i, nil
+}
+
+// bytesLeft returns the number of bytes between the current position and the end of the file.
+func (br *BoxReader) bytesLeft() (uint64, error) {
+	pos, err := br.reader.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	end, err := br.reader.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	if _, err = br.reader.Seek(pos, io.SeekStart); err != nil {
+		return 0, err
+	}
+	return uint64(max(end-pos, 0)), nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From 438eadb510a827d825a50c50af01c77dec9bde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 12/64] fix: codestreams split over several container boxes

Only the split right after the image header was handled, and then only
if the frames were all in the next box; the image header of such files
could not be queried.
---
 core/jxl_codestream_decoder.go | 35 ++++++++--------------
 core/read_jxl_boxes.go         | 55 ++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+), 23 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 1b73f0e..f2f769d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -22,6 +22,7 @@ type JXLCodestreamDecoder struct {
 	canvas      []image2.ImageBuffer
 	boxHeaders  []ContainerBoxHeader
 	bitReader   jxlio.BitReader
+	fileReader  jxlio.BitReader // what bitReader was before looking into the container.
 	imageHeader *bundle.ImageHeader
 
 	options        options.JXLOptions
@@ -57,10 +58,6 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
 	box := jxl.boxHeaders[0]
 	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
 	if err != nil {
@@ -132,24 +129,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	visibleFrames := 0
 	header := frame.FrameHeader{}
 
-	// If we have multiple box headers...  then we want to loop over from the second one.
-	// Need to also seek to that box offset.
-	ii := 0
-	shouldSeekBoxOffset := false
-	if len(jxl.boxHeaders) > 1 {
-		ii = 1
-		shouldSeekBoxOffset = true
-	}
-
-	for _, box := range jxl.boxHeaders[ii:] {
-
-		// only seek if we're not dealing with a single box.
-		if shouldSeekBoxOffset {
-			_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-			if err != nil {
-				return nil, err
-			}
-		}
+	for range jxl.boxHeaders {
 
 		if err = jxl.checkNotAtEnd(); err != nil {
 			return nil, err
@@ -312,7 +292,11 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 // Read signature
 func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
-	br := NewBoxReader(jxl.bitReader)
+	if jxl.fileReader == nil {
+		jxl.fileReader = jxl.bitReader
+	}
+	jxl.bitReader = jxl.fileReader
+	br := NewBoxReader(jxl.fileReader)
 	boxHeaders, err := br.ReadBoxHeader()
 	if err != nil {
 		return err
@@ -320,6 +304,11 @@ func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 	if len(boxHeaders) == 0 {
 		return errors.New("no codestream box found")
 	}
+	if boxHeaders[0].Offset > 0 {
+		// the codestream may be split over boxes at any point, and must not continue after them.
+		jxl.bitReader = jxlio.NewBitStreamReader(&codestreamReader{source: jxl.fileReader, boxes: boxHeaders})
+		boxHeaders = []ContainerBoxHeader{{BoxType: JXLC}}
+	}
 
 	jxl.boxHeaders = boxHeaders
 	jxl.level = br.level
diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 533218b..5678b1c 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -229,3 +229,58 @@ func makeTag(bytes []uint8, offset int, length int) uint64 {
 	}
 	return tag
 }
+
+// codestreamReader presents the contents of the codestream boxes of a container as one stream.
+type codestreamReader struct {
+	source  jxlio.BitReader
+	boxes   []ContainerBoxHeader
+	pos     int64 // position in the codestream.
+	inPlace bool  // source is at the place in the file that corresponds to pos.
+}
+
+func (cr *codestreamReader) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+	offset := cr.pos
+	for _, box := range cr.boxes {
+		size := int64(box.BoxSize)
+		if offset >= size {
+			offset -= size
+			continue
+		}
+		if !cr.inPlace || offset == 0 {
+			if _, err := cr.source.Seek(box.Offset+offset, io.SeekStart); err != nil {
+				return 0, err
+			}
+		}
+		n := min(int64(len(p)), size-offset, math.MaxInt32)
+		err := cr.source.ReadBytesToBuffer(p[:n], uint32(n))
+		cr.inPlace = err == nil
+		if err != nil {
+			return 0, err
+		}
+		cr.pos += n
+		return int(n), nil
+	}
+	return 0, io.EOF
+}
+
+func (cr *codestreamReader) Seek(offset int64, whence int) (int64, error) {
+	switch whence {
+	case io.SeekCurrent:
+		offset += cr.pos
+	case io.SeekEnd:
+		for _, box := range cr.boxes {
+			offset += int64(box.BoxSize)
+		}
+	}
+	if offset < 0 {
+		return 0, errors.New("seek before the start of the codestream")
+	}
+	if offset != cr.pos {
+		cr.pos = offset
+		cr.inPlace = false
+	}
+	return offset, nil
+}
-- 
2.43.0


From 2bd16f2696cc2a1638bd8fa57bd2dad09c52f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 13/64] fix: exporting an image must not change it

ToImage and WritePNG converted the samples of the image in place, so
that a second export applied the transfer function again.
---
 core/jxl_image.go  | 13 +++++++++----
 core/png_writer.go |  5 +++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..8d62d68 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -101,7 +101,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
@@ -231,7 +231,12 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	}
 	whitePoint := colour.CM_WP_D65
 	iccProfile := jxl.iccProfile
-	var err error
+
+	// the conversions below are done in place, keep the image as it is.
+	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
+	}
 	if iccProfile == nil {
 		// transforms in place
 		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
@@ -468,7 +473,7 @@ func (jxl *JXLImage) transferWithOp(f func(v float32) float32) (*JXLImage, error
 		buffers[c] = jxl.Buffer[c].FloatBuffer
 	}
 
-	img, err := NewJXLImageFromJXLImage(jxl, false)
+	img, err := NewJXLImageFromJXLImage(jxl, true)
 	if err != nil {
 		return nil, err
 	}
@@ -547,7 +552,7 @@ func (jxl *JXLImage) transferInPlace(transferFunction func(float64) float64) err
 
 	buffers := util.MakeMatrix3D[float32](colours, 0, 0)
 	for c := 0; c < colours; c++ {
-		if err := jxl.Buffer[c].CastToFloatIfMax(int32(jxl.bitDepths[c])); err != nil {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
 			return err
 		}
 		buffers[c] = jxl.Buffer[c].FloatBuffer
diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..e1be269 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -47,6 +47,11 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 	whitePoint := colour.CM_WP_D65
 
+	// the conversions below are done in place, keep the image as it is.
+	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	if err != nil {
+		return err
+	}
 	if jxlImage.iccProfile == nil {
 		// transforms in place
 		img, err := jxlImage.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
-- 
2.43.0


From 9e7922ac4693f83b24c9bfcb46b1c459555f3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 14/64] fix: sample width and alpha channel of PNG files

The sample width was taken from the image instead of from the file, so
that images of less than 8 bits, HDR images of 8 bits and alpha channels
of another depth gave malformed files. Alpha was taken from channel 3,
which does not exist for gray images and need not be alpha in others.
---
 core/png_writer.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/png_writer.go b/core/png_writer.go
index e1be269..1e454f8 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -298,12 +298,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
+	bitDepth := w.bitDepth
+	alphaChannel := jxlImage.imageHeader.GetColourChannelCount() + int(jxlImage.alphaIndex)
 
 	maxValue := int32(^(^0 << bitDepth))
 
@@ -324,7 +320,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
+		if err = jxlImage.Buffer[alphaChannel].CastToIntIfMax(maxValue); err != nil {
 			return err
 		}
 	}
@@ -349,7 +345,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			// FIXME(kpfaulkner) remove 3 assumption
 			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
 				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
@@ -364,8 +360,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 
 			}
 			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
+				dat := jxlImage.Buffer[alphaChannel].IntBuffer[y][x]
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
@@ -381,7 +377,9 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			}
 		}
 	}
-	wr.Close()
+	if err = wr.Close(); err != nil {
+		return err
+	}
 
 	if _, err := buf.Write(compressedBytes.Bytes()); err != nil {
 		return err
-- 
2.43.0


From 899cbe725e04174bf33319e23373b28824538e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 15/64] fix: exports of integer, deep and premultiplied images

ToImage kept the low byte of samples of more than 8 bits and took alpha
from channel 3 whatever its type, ChannelToImage looked at the type of
channel 0, and WritePFM panicked for integer images. What is not
implemented is now an error instead of a panic.
---
 core/jxl_image.go  | 17 +++++++----------
 core/pfm_writer.go |  7 +++----
 core/png_writer.go |  3 ++-
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 8d62d68..776c7d3 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"fmt"
 	"image"
 
@@ -191,7 +192,7 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[0].IsFloat() {
+	if buffer[channelNo].IsFloat() {
 		for y := 0; y < dy; y++ {
 			for x := 0; x < dx; x++ {
 
@@ -215,12 +216,8 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
+	// the images created below have 8 bits per sample.
+	bitDepth := int32(8)
 
 	//gray := jxlImage.ColourEncoding == color.CE_GRAY
 	primaries := colour.CM_PRI_SRGB
@@ -267,7 +264,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		}
 	}
 	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+		return nil, errors.New("premultiplied alpha not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
@@ -360,7 +357,7 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
+					pix[pos] = uint8(buffer[3+jxl.alphaIndex].IntBuffer[y][x])
 					pos++
 				} else {
 					pix[pos] = 255
@@ -537,7 +534,7 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	return nil, errors.New("linearize not implemented")
 }
 
 func (jxl *JXLImage) toneMapLinear() error {
diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..c1f92d3 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -36,10 +36,9 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 	}
 	nb := make([]image2.ImageBuffer, len(buffer2))
 	for c := 0; c < len(nb); c++ {
-		if buffer2[c].IsInt() {
-			panic("not implemented")
-		} else {
-			nb[c] = buffer2[c]
+		nb[c] = buffer2[c]
+		if err = nb[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
+			return err
 		}
 	}
 
diff --git a/core/png_writer.go b/core/png_writer.go
index 1e454f8..7864b69 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"encoding/binary"
+	"errors"
 	"hash/crc32"
 	"io"
 
@@ -103,7 +104,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
+		return errors.New("premultiplied alpha not implemented")
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-- 
2.43.0


From e86f074b52b9f715e1fba1246a5a2176a38b0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 16/64] fix: a parallelism limit of one was ignored

---
 options/jxl_options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/options/jxl_options.go b/options/jxl_options.go
index 0724d9e..6c923e4 100644
--- a/options/jxl_options.go
+++ b/options/jxl_options.go
@@ -20,7 +20,7 @@ func NewJXLOptions(options *JXLOptions) *JXLOptions {
 		opt.debug = options.debug
 		opt.ParseOnly = options.ParseOnly
 
-		if options.MaxGoroutines > 1 {
+		if options.MaxGoroutines > 0 {
 			opt.MaxGoroutines = options.MaxGoroutines
 		}
 	}
-- 
2.43.0


From 2d28f3ee67a9e76fd3f58100d58efea7ec775dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 17/64] fix: newly made matrices were counted as pool hits

---
 util/buffer_pool.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/util/buffer_pool.go b/util/buffer_pool.go
index 7a04344..8f64546 100644
--- a/util/buffer_pool.go
+++ b/util/buffer_pool.go
@@ -46,12 +46,8 @@ func (p *Matrix3DPool[T]) Get(depth, height, width int) [][][]T {
 		// Double-check after acquiring write lock
 		pool, exists = p.pools[key]
 		if !exists {
-			pool = &sync.Pool{
-				New: func() interface{} {
-					m := MakeMatrix3D[T](depth, height, width)
-					return &m
-				},
-			}
+			// without New, so that Get tells when there is nothing to reuse.
+			pool = &sync.Pool{}
 			p.pools[key] = pool
 		}
 		p.mu.Unlock()
@@ -132,12 +128,7 @@ func (p *Matrix2DPool[T]) Get(height, width int) [][]T {
 		p.mu.Lock()
 		pool, exists = p.pools[key]
 		if !exists {
-			pool = &sync.Pool{
-				New: func() interface{} {
-					m := MakeMatrix2D[T](height, width)
-					return &m
-				},
-			}
+			pool = &sync.Pool{}
 			p.pools[key] = pool
 		}
 		p.mu.Unlock()
-- 
2.43.0


From f076ac5f462929831efec55465b43dab402cccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 18/64] fix: the permutation of the sections of a frame was
 read but not applied

---
 frame/Frame.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index c601a62..1ef356d 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -308,6 +308,9 @@ func (f *Frame) getBitreader(index int) (jxlio.BitReader, error) {
 		i = 0
 	} else {
 		i = uint32(index)
+		if f.tocPermutation != nil {
+			i = f.tocPermutation[i]
+		}
 	}
 
 	return f.bitreaders[i], nil
-- 
2.43.0


From af03acda72ebe9dff4055ae3f766fdf438af3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 19/64] fix: place of group data in modular channels

Squeezed channels may be smaller than the group grid, have nothing in
some groups or be decoded by low frequency groups. Their parts got the
wrong size or place, low frequency parts were looked up by the wrong
index and only copied to the left edge.
---
 frame/Frame.go          | 108 ++++++++--------------------------------
 frame/ModularChannel.go |  30 +++++++++++
 2 files changed, 50 insertions(+), 88 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 1ef356d..c867829 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -543,41 +543,18 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	lfReplacementChannels := []*ModularChannel{}
-	lfReplacementChannelIndicies := []int{}
 
 	for i := 0; i < len(f.LfGlobal.globalModular.getChannels()); i++ {
 		ch := f.LfGlobal.globalModular.getChannels()[i]
 		if !ch.decoded {
 			if ch.hshift >= 3 && ch.vshift >= 3 {
-				lfReplacementChannelIndicies = append(lfReplacementChannelIndicies, i)
-				height := f.Header.lfGroupDim >> ch.vshift
-				width := f.Header.lfGroupDim >> ch.hshift
-				lfReplacementChannels = append(lfReplacementChannels, NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, false))
+				lfReplacementChannels = append(lfReplacementChannels, ch)
 			}
 		}
 	}
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
-	// Hoist invariant computation out of the loop
-	frameSize, err := f.GetPaddedFrameSize()
-	if err != nil {
-		return err
-	}
-
-	// Pre-compute lfHeight/lfWidth for each replacement channel (invariant per channel)
-	numReplacements := len(lfReplacementChannels)
-	lfHeights := make([]uint32, numReplacements)
-	lfWidths := make([]uint32, numReplacements)
-	templateHeights := make([]uint32, numReplacements)
-	templateWidths := make([]uint32, numReplacements)
-	for i, r := range lfReplacementChannels {
-		lfHeights[i] = frameSize.Height >> r.vshift
-		lfWidths[i] = frameSize.Width >> r.hshift
-		templateHeights[i] = r.size.Height
-		templateWidths[i] = r.size.Width
-	}
-
 	errChan := make(chan error, f.numLFGroups)
 	var wg sync.WaitGroup
 	// Ensure at least 1 goroutine
@@ -612,24 +589,12 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 			lfGroupPos := f.getLFGroupLocation(int32(id))
 
-			// Pre-allocate with correct capacity, use index assignment instead of append
-			replaced := make([]ModularChannel, numReplacements)
-			for i, r := range lfReplacementChannels {
-				// Copy the template channel directly instead of calling NewModularChannelFromChannel
-				replaced[i] = ModularChannel{
-					size:    r.size,
-					origin:  r.origin,
-					hshift:  r.hshift,
-					vshift:  r.vshift,
-					decoded: r.decoded,
-					// buffer is nil - will be allocated by NewLFGroupWithReader if needed
+			// the parts of the channels in this LF group, channels that don't reach into it are left out.
+			replaced := make([]ModularChannel, 0, len(lfReplacementChannels))
+			for _, r := range lfReplacementChannels {
+				if part := r.groupPart(lfGroupPos, f.Header.lfGroupDim); part != nil {
+					replaced = append(replaced, *part)
 				}
-
-				// Update origin and size for this specific LF group
-				replaced[i].origin.Y = lfGroupPos.Y * int32(templateHeights[i])
-				replaced[i].origin.X = lfGroupPos.X * int32(templateWidths[i])
-				replaced[i].size.Height = util.Min(templateHeights[i], lfHeights[i]-uint32(replaced[i].origin.Y))
-				replaced[i].size.Width = util.Min(templateWidths[i], lfWidths[i]-uint32(replaced[i].origin.X))
 			}
 
 			lfg, err := NewLFGroupWithReader(reader, f, int32(id), replaced, lfBuffer, NewLFCoefficientsWithReader, NewHFMetadataWithReader)
@@ -647,24 +612,10 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 		return <-errChan
 	}
 
-	// Allocate all replacement channels once BEFORE copying data from LF groups
-	// (previously was allocating redundantly for each LF group)
-	channels := f.LfGlobal.globalModular.getChannels()
-	for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-		channels[lfReplacementChannelIndicies[j]].allocate()
-	}
-
-	// Copy data from each LF group into the pre-allocated channels
+	// Copy data from each LF group into the channels
 	for lfGroupID := uint32(0); lfGroupID < f.numLFGroups; lfGroupID++ {
-		for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-			index := lfReplacementChannelIndicies[j]
-			channel := channels[index]
-			newChannelInfo := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[index]
-			newChannel := newChannelInfo.buffer
-			for y := 0; y < len(newChannel); y++ {
-				copy(channel.buffer[int32(y)+newChannelInfo.origin.Y], newChannel[y])
-			}
-		}
+		copyGroupParts(lfReplacementChannels, f.lfGroups[lfGroupID].modularLFGroup.getChannels(),
+			f.getLFGroupLocation(int32(lfGroupID)), f.Header.lfGroupDim)
 	}
 	return nil
 }
@@ -720,27 +671,17 @@ func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) (e
 		return err
 	}
 
+	groupPos := f.getGroupLocation(int32(iGroup))
 	replaced := []ModularChannel{}
 	for _, r := range f.passes[iPass].replacedChannels {
 		// remove any replacedChannels that are nil/empty
 		if r != nil {
-			mc := NewModularChannelFromChannel(*r)
-			replaced = append(replaced, *mc)
+			if part := r.groupPart(groupPos, f.Header.groupDim); part != nil {
+				replaced = append(replaced, *part)
+			}
 		}
 	}
 
-	for i := 0; i < len(replaced); i++ {
-		info := replaced[i]
-		groupHeight := f.Header.groupDim >> info.vshift
-		groupWidth := f.Header.groupDim >> info.hshift
-		rowStride := util.CeilDiv(info.size.Width, groupWidth)
-		info.origin.Y = int32((uint32(iGroup) / rowStride) * groupHeight)
-		info.origin.X = int32((uint32(iGroup) % rowStride) * groupWidth)
-		info.size.Height = util.Min(info.size.Height-uint32(info.origin.Y), uint32(groupHeight))
-		info.size.Width = util.Min(info.size.Width-uint32(info.origin.X), uint32(groupWidth))
-		replaced[i] = info
-	}
-
 	pg, err := NewPassGroupWithReader(br, f, uint32(iPass), uint32(iGroup), replaced)
 	if err != nil {
 		return err
@@ -795,24 +736,15 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	}
 
 	for pass := 0; pass < numPasses; pass++ {
-		j := 0
+		channels := []*ModularChannel{}
 		for i := 0; i < len(f.passes[pass].replacedChannels); i++ {
-			if f.passes[pass].replacedChannels[i] == nil {
-				continue
-			}
-			ii := i
-			jj := j
-			channel := f.LfGlobal.globalModular.getChannels()[ii]
-			channel.allocate()
-			for group := 0; group < int(f.numGroups); group++ {
-				newChannelInfo := passGroups[pass][group].modularStream.getChannels()[jj]
-				buff := newChannelInfo.buffer
-				for y := 0; y < len(buff); y++ {
-					idx := y + int(newChannelInfo.origin.Y)
-					copy(channel.buffer[idx][newChannelInfo.origin.X:], buff[y][:len(buff[y])])
-				}
+			if f.passes[pass].replacedChannels[i] != nil {
+				channels = append(channels, f.LfGlobal.globalModular.getChannels()[i])
 			}
-			j++
+		}
+		for group := 0; group < numGroups; group++ {
+			copyGroupParts(channels, passGroups[pass][group].modularStream.getChannels(),
+				f.getGroupLocation(int32(group)), f.Header.groupDim)
 		}
 	}
 
diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index f36a97b..54d3d2d 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -74,6 +74,36 @@ func NewModularChannelWithAllParams(height int32, width int32, vshift int32, hsh
 	return mc
 }
 
+// groupPart returns a channel for the part of mc that lies in the group at pos, nil if there is none.
+// Groups have a size of groupDim pixels, that is before shifting.
+func (mc *ModularChannel) groupPart(pos *util.Point, groupDim uint32) *ModularChannel {
+	height := groupDim >> mc.vshift
+	width := groupDim >> mc.hshift
+	y := uint32(pos.Y) * height
+	x := uint32(pos.X) * width
+	if height == 0 || width == 0 || y >= mc.size.Height || x >= mc.size.Width {
+		return nil
+	}
+	part := NewModularChannelWithAllParams(int32(min(height, mc.size.Height-y)), int32(min(width, mc.size.Width-x)), mc.vshift, mc.hshift, mc.forceWP)
+	part.origin = util.Point{X: int32(x), Y: int32(y)}
+	return part
+}
+
+// copyGroupParts copies the decoded channels of the group at pos to the parts of channels they are for.
+func copyGroupParts(channels []*ModularChannel, decoded []*ModularChannel, pos *util.Point, groupDim uint32) {
+	for _, mc := range channels {
+		mc.allocate()
+		part := mc.groupPart(pos, groupDim)
+		if part == nil {
+			continue
+		}
+		for y, row := range decoded[0].buffer {
+			copy(mc.buffer[y+int(part.origin.Y)][part.origin.X:], row)
+		}
+		decoded = decoded[1:]
+	}
+}
+
 func (mc *ModularChannel) allocate() {
 	if len(mc.buffer) != 0 {
 		return
-- 
2.43.0


From be1f87f0b80bcbc95e9bb37a738116b7c797c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 20/64] fix: placing frames that begin above or left of the
 image

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index f2f769d..601bb09 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -727,7 +727,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
 	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
+	if header.Bounds.Origin.Y >= 0 {
 		frameStartY = header.Bounds.Origin.Y
 	}
 	frameStartX := int32(0)
-- 
2.43.0


From 2360afe14dfe91a3634062b7d30fa6d450ea968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 21/64] fix: decoding again must not use frames of the previous
 decode

---
 core/jxl_codestream_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 601bb09..6037b0b 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -79,6 +79,10 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 
 func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 
+	// nothing of an earlier decode may be used.
+	jxl.lfBuffer = make([][]image2.ImageBuffer, 5)
+	jxl.reference = make([][]image2.ImageBuffer, 4)
+
 	// read header to get signature
 	err := jxl.ReadSignatureAndBoxes()
 	if err != nil {
-- 
2.43.0


From 93846c84f19b2c1d3c3f59e4f7f49b75558df7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 22/64] fix: DecodeConfig reported the size before orientation

---
 reader.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index c13f603..9f945f7 100644
--- a/reader.go
+++ b/reader.go
@@ -67,11 +67,10 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 		colourModel = color2.RGBAModel
 	}
 
-	dim := header.GetSize()
 	return image.Config{
 		ColorModel: colourModel,
-		Width:      int(dim.Width),
-		Height:     int(dim.Height),
+		Width:      int(header.OrientedWidth),
+		Height:     int(header.OrientedHeight),
 	}, nil
 
 }
-- 
2.43.0


From 0d6d944729f37a86645b7775c434d9074ffde686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 23/64] fix: image.Decode and image.DecodeConfig never worked

---
 reader.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/reader.go b/reader.go
index 9f945f7..da1ee2b 100644
--- a/reader.go
+++ b/reader.go
@@ -1,7 +1,7 @@
 package jxl_go
 
 import (
-	"errors"
+	"bytes"
 	"image"
 	color2 "image/color"
 	"io"
@@ -16,20 +16,29 @@ func init() {
 	image.RegisterFormat("jxl", jxlHeader, Decode, DecodeConfig)
 }
 
-func Decode(r io.Reader) (image.Image, error) {
+// readSeeker makes sure that the input can be positioned. The readers of the image package can't.
+func readSeeker(r io.Reader) (io.ReadSeeker, error) {
+	if rs, ok := r.(io.ReadSeeker); ok {
+		return rs, nil
+	}
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	return bytes.NewReader(data), nil
+}
 
-	var rs io.ReadSeeker
-	var ok bool
+func Decode(r io.Reader) (image.Image, error) {
 
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return nil, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return nil, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
 
 	var img image.Image
 	var jxlImg *core.JXLImage
-	var err error
 	if jxlImg, err = jxl.Decode(); err != nil {
 		return nil, err
 	}
@@ -41,11 +50,9 @@ func Decode(r io.Reader) (image.Image, error) {
 }
 
 func DecodeConfig(r io.Reader) (image.Config, error) {
-	var rs io.ReadSeeker
-	var ok bool
-
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return image.Config{}, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return image.Config{}, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
-- 
2.43.0


From 03656db3560db50a759a9617abce7e59d0f3c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 24/64] fix: padding after a section passed for its data

A section that is cut short was decoded with up to 32 zero bits that are not
in the file, so that an image with invented samples came out.
---
 frame/Frame.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index c867829..9c3e0c2 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -488,7 +488,8 @@ func (f *Frame) setupBitReaders() error {
 			if err != nil {
 				return err
 			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+			// without the padding, which must not pass for data of a section that is too short
+			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
 		}
 	} else {
 		f.bitreaders[0] = f.reader
-- 
2.43.0


From a279b75aa4c533b45a3786b2519bdef02c6a3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 25/64] fix: ANS distribution with all of its weight in the
 omitted symbol

---
 entropy/ANSSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 805e645..a20079f 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -196,6 +196,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				totalCount += asd.frequencies[i]
 			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
+			if totalCount == 0 {
+				uniqPos = omitPos
+			}
 		}
 	}
 	asd.generateAliasMapping(uniqPos)
-- 
2.43.0


From 5dcd0e657fc7509844d40a1432da7e874ec39926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 26/64] fix: special LZ77 distances below one

---
 entropy/EntropyStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..ad971fe 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -350,7 +350,7 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if distanceMultiplier == 0 {
 			distance++
 		} else if distance < 120 {
-			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
+			distance = max(1, SPECIAL_DISTANCES[distance][0]+distanceMultiplier*SPECIAL_DISTANCES[distance][1])
 		} else {
 			distance -= 119
 		}
-- 
2.43.0


From adebc3d0402a0f738087ec730c9785305a0be782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 27/64] fix: squeeze parameters were read with the wrong ranges

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From 70d6ef0c318357bf4fe07656fa7acafc92a56cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 28/64] fix: default squeeze after meta channels took the size
 of the palette

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5c063af..6c71e8b 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -265,7 +265,7 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			if len(ms.transforms[i].sp) == 0 {
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
-				size := ms.channels[0].size
+				size := ms.channels[first].size
 				if count > 2 && size.Width == ms.channels[first+1].size.Width && size.Height == ms.channels[first+1].size.Height {
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: true, inPlace: false, beginC: first + 1, numC: 2})
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: false, inPlace: false, beginC: first + 1, numC: 2})
-- 
2.43.0


From 608b8990c9c0e6586dfd6d7993d1371909d7ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 29/64] fix: LZ77 distance multiplier came from channels of
 other streams

---
 frame/ModularStream.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 6c71e8b..7887133 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -350,15 +350,6 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	}
 
 	ms.stream = entropy.NewEntropyStreamWithStream(ms.tree.stream)
-
-	// get max Width from all channels.
-	maxWidth := uint32(0)
-	for _, c := range ms.channels {
-		if c.size.Width > maxWidth {
-			maxWidth = c.size.Width
-		}
-	}
-	ms.distMultiplier = int32(maxWidth)
 	return ms, nil
 }
 
@@ -369,12 +360,22 @@ func (ms *ModularStream) getChannels() []*ModularChannel {
 func (ms *ModularStream) decodeChannels(reader jxlio.BitReader, partial bool) error {
 
 	groupDim := uint32(ms.frame.getFrameHeader().groupDim)
-	for i := 0; i < len(ms.channels); i++ {
-		channel := ms.channels[i]
+	count := 0
+	// get max Width from all channels that are decoded here.
+	maxWidth := uint32(0)
+	for i, channel := range ms.channels {
 		if partial && i >= ms.nbMetaChannels &&
 			(channel.size.Width > groupDim || channel.size.Height > groupDim) {
 			break
 		}
+		if channel.size.Height > 0 && channel.size.Width > maxWidth {
+			maxWidth = channel.size.Width
+		}
+		count++
+	}
+	ms.distMultiplier = int32(maxWidth)
+	for i := 0; i < count; i++ {
+		channel := ms.channels[i]
 		err := channel.decode(reader, ms.stream, ms.wpParams, ms.tree, ms, int32(i), int32(ms.streamIndex), ms.distMultiplier)
 		if err != nil {
 			return err
-- 
2.43.0


From a13def268dc7c5a1bf115883da211cd59e3600b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 30/64] fix: palette deltas with the weighted predictor

---
 frame/ModularChannel.go | 26 ++++++++++++++++++--------
 frame/ModularStream.go  | 13 +++++++++++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index 54d3d2d..802fa63 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -162,6 +162,22 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	}
 }
 
+// allocateWP makes the state of the weighted predictor.
+func (mc *ModularChannel) allocateWP() {
+	mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
+	mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
+	mc.subpred = make([]int32, 4)
+	mc.weight = make([]int32, 4)
+}
+
+// updateWP stores the errors of the weighted predictor once the value at (x, y) is known.
+func (mc *ModularChannel) updateWP(x int32, y int32, trueValue int32) {
+	for e := 0; e < 4; e++ {
+		mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
+	}
+	mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+}
+
 func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (int32, error) {
 
 	n3 := mc.north(x, y) << 3
@@ -456,10 +472,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 	tree = tree.compactify(channelIndex, streamIndex)
 	useWP := mc.forceWP || tree.useWeightedPredictor()
 	if useWP {
-		mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
-		mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
-		mc.subpred = make([]int32, 4)
-		mc.weight = make([]int32, 4)
+		mc.allocateWP()
 	} else {
 		wpParams = nil
 	}
@@ -498,10 +511,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 			trueValue := diff + p
 			mc.buffer[y][x] = trueValue
 			if useWP {
-				for e := 0; e < 4; e++ {
-					mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
-				}
-				mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+				mc.updateWP(x, y, trueValue)
 			}
 		}
 	}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 7887133..ae391c8 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -528,6 +528,11 @@ func (ms *ModularStream) applyTransforms() error {
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
+				// the weighted predictor works on the values of the channel, not on the indices.
+				useWP := ms.transforms[i].dPred == 6
+				if useWP {
+					ch.allocateWP()
+				}
 				for y := uint32(0); y < firstChannel.size.Height; y++ {
 					for x := uint32(0); x < firstChannel.size.Width; x++ {
 						index := ch.buffer[y][x]
@@ -559,6 +564,11 @@ func (ms *ModularStream) applyTransforms() error {
 						} else {
 							value = 0
 						}
+						if useWP {
+							if _, err := ch.prePredictWP(ms.wpParams, int32(x), int32(y)); err != nil {
+								return err
+							}
+						}
 						ch.buffer[y][x] = value
 						if isDelta {
 							pred, err := ch.prediction(int32(y), int32(x), int32(ms.transforms[i].dPred))
@@ -567,6 +577,9 @@ func (ms *ModularStream) applyTransforms() error {
 							}
 							ch.buffer[y][x] += pred
 						}
+						if useWP {
+							ch.updateWP(int32(x), int32(y), ch.buffer[y][x])
+						}
 					}
 				}
 			}
-- 
2.43.0


From f6ca9f56595b28fafbdc163e5af3aba0d6796851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:30 +0000
Subject: [PATCH 31/64] fix: extension lengths are in bits, not bytes

---
 bundle/Extensions.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..910719f 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,22 +25,23 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
+	// lengths are in bits
+	var lengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
+			ex.Payloads[i] = make([]byte, (lengths[i]+7)/8)
 		}
 	}
 	for i := 0; i < 64; i++ {
 		if len(ex.Payloads[i]) > 0 {
 			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
+				if bits, err := reader.ReadBits(uint32(min(8, lengths[i]-8*uint64(j)))); err != nil {
 					return nil, err
 				} else {
 					ex.Payloads[i][j] = byte(bits)
-- 
2.43.0


From 9193eda61c79f255478f8f0abb82e36d71a49d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 32/64] fix: blending two transparent samples gave NaN

---
 core/jxl_codestream_decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 6037b0b..7dc5008 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -922,6 +922,8 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
+				} else if alpha == 0 {
+					cf[cy][cx] = 0
 				} else {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
 				}
-- 
2.43.0


From 151c98285676a6f1f5ab0e36b440d654066ec316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 33/64] fix: blending with a reference that was never stored
 failed

---
 core/jxl_codestream_decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 7dc5008..ace42af 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -784,6 +784,11 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 			continue
 		}
 
+		// a reference that was never stored is all zeros.
+		if refBuffer == nil {
+			refBuffer = make([]image2.ImageBuffer, len(canvas))
+		}
+
 		// check if just the zero value. Think dimension being 0 should be ok.
 		if refBuffer[c].Width == 0 && refBuffer[c].Height == 0 {
 			refBuf, err := image2.NewImageBuffer(frameBuffer.BufferType, canvas[c].Height, canvas[c].Width)
-- 
2.43.0


From abffab2f14dbf32ab1ae37828b86b59f176d8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 34/64] fix: only the alpha channel that is blended with is
 alpha

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index ace42af..d36df66 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -766,7 +766,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		} else {
 			info = &imgFrame.Header.EcBlendingInfo[frameC-int32(frameColours)]
 		}
-		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
+		isAlpha := hasAlpha && c == int32(imageColours)+int32(info.AlphaChannel)
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
 		refBuffer := jxl.reference[info.Source]
-- 
2.43.0


From ee8e9e878f1b3191311af02f4e13af3aded51ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 35/64] fix: clamping of the multiply mode without extra
 channels was not read

---
 frame/BlendingInfo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..c342f22 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -40,8 +40,7 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	}
 
 	var err error
-	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
+	if bi.Mode == BLEND_MULT || extra && (bi.Mode == BLEND_BLEND ||
 		bi.Mode == BLEND_MULADD) {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
-- 
2.43.0


From 5b9ad89157df3ccbc6b7b4ee0753e9c9da0c22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 36/64] fix: samples outside of a frame come from its
 reference, references stay as stored

---
 core/jxl_codestream_decoder.go | 71 +++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index d36df66..2dd7f67 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -105,7 +105,6 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 	jxl.imageHeader = imageHeader
-	size := imageHeader.Size
 	jxl.canvas = make([]image2.ImageBuffer, imageHeader.GetColourChannelCount()+len(imageHeader.ExtraChannelInfo))
 	if imageHeader.AnimationHeader != nil {
 		return nil, errors.New("animation not implemented")
@@ -221,40 +220,23 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				panic("VARDCT not implemented yet")
 			}
 
-			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
-				for c := 0; c < len(jxl.canvas); c++ {
-					canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
-					if err != nil {
-						return nil, err
-					}
-					jxl.canvas[c] = *canvas
-				}
-			}
-			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
-
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
+			normalFrame := header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE
+			if normalFrame || !header.SaveBeforeCT {
+				canvas, err := jxl.newCanvas(imgFrame)
+				if err != nil {
+					return nil, err
 				}
-				err = jxl.blendFrame(jxl.canvas, imgFrame)
+				err = jxl.blendFrame(canvas, imgFrame)
 				if err != nil {
 					return nil, err
 				}
-			}
-
-			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				// a frame that is only a reference is never shown.
+				if normalFrame {
+					jxl.canvas = canvas
+				}
+				if save && !header.SaveBeforeCT {
+					jxl.reference[header.SaveAsReference] = canvas
+				}
 			}
 
 			if header.IsLast && header.Duration == 0 {
@@ -726,6 +708,33 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+// newCanvas makes the canvas for a frame: samples outside of the frame are those of
+// the reference that the frame is blended with. References are never modified.
+func (jxl *JXLCodestreamDecoder) newCanvas(imgFrame *frame.Frame) ([]image2.ImageBuffer, error) {
+	size := jxl.imageHeader.GetSize()
+	lowerCorner := imgFrame.Header.Bounds.ComputeLowerCorner()
+	fullFrame := imgFrame.Header.Bounds.Origin.Y <= 0 && imgFrame.Header.Bounds.Origin.X <= 0 &&
+		lowerCorner.Y >= int32(size.Height) && lowerCorner.X >= int32(size.Width)
+	imageColours := jxl.imageHeader.GetColourChannelCount()
+	canvas := make([]image2.ImageBuffer, len(jxl.canvas))
+	for c := range canvas {
+		info := imgFrame.Header.BlendingInfo
+		if c >= imageColours {
+			info = &imgFrame.Header.EcBlendingInfo[c-imageColours]
+		}
+		if ref := jxl.reference[info.Source]; !fullFrame && ref != nil {
+			canvas[c] = *image2.NewImageBufferFromImageBuffer(&ref[c], true)
+			continue
+		}
+		buffer, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
+		if err != nil {
+			return nil, err
+		}
+		canvas[c] = *buffer
+	}
+	return canvas, nil
+}
+
 func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFrame *frame.Frame) error {
 
 	imageSize := jxl.imageHeader.GetSize()
-- 
2.43.0


From f6886add8affdec2ddd8a2f5b81eee1524f76315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 37/64] fix: frames without pass headers had no pass for their
 modular channels

---
 frame/FrameHeader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..a3a2162 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -191,7 +191,11 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			return nil, err
 		}
 	} else {
+		// a single pass, which has all of the channels
 		fh.passes = NewPassesInfo()
+		fh.passes.shift = []uint32{0}
+		fh.passes.downSample = []uint32{1}
+		fh.passes.lastPass = []uint32{0}
 	}
 
 	if fh.FrameType == LF_FRAME {
-- 
2.43.0


From 44e7da966cefc696cc7f62c0703d22f0286ab974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 38/64] fix: palettes of channels without samples were an error

---
 frame/ModularChannel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index 802fa63..ad30b3a 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -53,7 +53,8 @@ func NewModularChannelFromChannel(ch ModularChannel) *ModularChannel {
 	mc.decoded = ch.decoded
 	if ch.buffer != nil {
 		mc.allocate()
-		for y := uint32(0); y < mc.size.Height; y++ {
+		// a channel without samples has no rows
+		for y := range mc.buffer {
 			copy(mc.buffer[y], ch.buffer[y])
 		}
 	}
-- 
2.43.0


From 6f2b8902eb261e167ab2000f85731d30a5055c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 39/64] fix: frames of one section were read past the end of it

---
 frame/Frame.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 9c3e0c2..2baae0c 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -482,17 +482,13 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
-	if len(f.tocLengths) != 1 {
-		for i := 0; i < len(f.tocLengths); i++ {
-			buffer, err := f.readBuffer(i)
-			if err != nil {
-				return err
-			}
-			// without the padding, which must not pass for data of a section that is too short
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
+	for i := 0; i < len(f.tocLengths); i++ {
+		buffer, err := f.readBuffer(i)
+		if err != nil {
+			return err
 		}
-	} else {
-		f.bitreaders[0] = f.reader
+		// without the padding, which must not pass for data of a section that is too short
+		f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
 	}
 	return nil
 }
-- 
2.43.0


From 9540baae05ecc2dbb6ef8b41750170993ea61632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 40/64] fix: AFV1, AFV2 and AFV3 blocks were laid out like AFV0

---
 frame/PassGroup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..41c46f5 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -318,10 +318,10 @@ func (g *PassGroup) invertAFV(coeffs [][]float32, buffer [][]float32, tt *Transf
 
 	var flipX int32
 	var flipY int32
-	if tt == AFV2 || tt == AFV3 {
+	if tt.ttType == AFV2.ttType || tt.ttType == AFV3.ttType {
 		flipY = 1
 	}
-	if tt == AFV1 || tt == AFV3 {
+	if tt.ttType == AFV1.ttType || tt.ttType == AFV3.ttType {
 		flipX = 1
 	}
 	totalSample := float32(0)
-- 
2.43.0


From 091d8f0ff2c0bef5458da682842755ccb3d86428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 41/64] fix: AFV weights were transposed and took the wrong
 bands

---
 frame/HFGlobal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..e731e2e 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -639,7 +639,7 @@ func (hfg *HFGlobal) getAFVTransformWeights(index int, c int) ([][]float32, erro
 				continue
 			}
 			pos := (afvFreqs[y*4+x] - low) / (high - low)
-			weight[2*x][2*y] = interpolate(float32(pos), bands)
+			weight[2*y][2*x] = interpolate(float32(pos)*float32(len(bands)-1), bands)
 		}
 		for x := 0; x < 8; x++ {
 			if x == 0 && y == 0 {
-- 
2.43.0


From 405feff1d24ac72ae787a6a81b44ed439f5bb891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:27 +0000
Subject: [PATCH 42/64] fix: blocks before the corner of their tile took no
 colour from luma

---
 frame/HFCoefficients.go | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 14f4207..a60d509 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -343,9 +343,6 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 	lfc := hf.frame.getLFGlobal().lfChanCorr
 	xFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[0]
 	bFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[1]
-	xFactors := util.MakeMatrix2D[float32](len(xFactorHF), len(xFactorHF[0]))
-	bFactors := util.MakeMatrix2D[float32](len(bFactorHF), len(bFactorHF[0]))
-
 	// Cache the float32 conversion outside the loops to avoid per-pixel conversion
 	invColorFactor := 1.0 / float32(lfc.colorFactor)
 	baseCorrelationX := lfc.baseCorrelationX
@@ -362,25 +359,13 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 		for iy := int32(0); iy < tt.pixelHeight; iy++ {
 			y := pPosY + iy
 			fy := y >> 6
-			by := fy<<6 == y
-			xF := xFactors[fy]
-			bF := bFactors[fy]
 			hfX := xFactorHF[fy]
 			hfB := bFactorHF[fy]
 			for ix := int32(0); ix < tt.pixelWidth; ix++ {
 				x := pPosX + ix
 				fx := x >> 6
-				var kX float32
-				var kB float32
-				if by && fx<<6 == x {
-					kX = baseCorrelationX + float32(hfX[fx])*invColorFactor
-					kB = baseCorrelationB + float32(hfB[fx])*invColorFactor
-					xF[fx] = kX
-					bF[fx] = kB
-				} else {
-					kX = xF[fx]
-					kB = bF[fx]
-				}
+				kX := baseCorrelationX + float32(hfX[fx])*invColorFactor
+				kB := baseCorrelationB + float32(hfB[fx])*invColorFactor
 				dequantY := hf.dequantHFCoeff[1][y&0xFF][x&0xFF]
 				hf.dequantHFCoeff[0][y&0xFF][x&0xFF] += kX * dequantY
 				hf.dequantHFCoeff[2][y&0xFF][x&0xFF] += kB * dequantY
-- 
2.43.0


From 6cbb8d00c6b749033cb4ceba9d78cd44f1de063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 43/64] fix: upsampled samples were never negative

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 2baae0c..eb3a5a8 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1518,7 +1518,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-- 
2.43.0


From b58b16874379173c800238685eadcbcd78e4b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 44/64] fix: alpha of lossy grey frames was taken for a colour
 when blending

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 2dd7f67..60b1999 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -808,7 +808,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		}
 		ref := refBuffer[c]
 
-		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers)
+		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers[frameColours-imageColours:])
 		if err2 != nil {
 			return err2
 		}
-- 
2.43.0


From 7b2a11a074106ba2450a8353fedc222f75d38813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 45/64] fix: scales of X and B below 2 lost the coefficients

---
 frame/HFCoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index a60d509..c25ee5b 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -267,9 +267,9 @@ func (hf *HFCoefficients) dequantizeHFCoefficients() error {
 	header := hf.frame.getFrameHeader()
 	globalScale := 65536.0 / float32(hf.frame.getLFGlobal().globalScale)
 	scaleFactor := [3]float32{
-		globalScale * float32(math.Pow(0.8, float64(header.xqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(int32(header.xqmScale)-2))),
 		globalScale,
-		globalScale * float32(math.Pow(0.8, float64(header.bqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(int32(header.bqmScale)-2))),
 	}
 	weights := hf.frame.getHFGlobal().weights
 	qbclut := [][]float32{
-- 
2.43.0


From cf6d9c090c86b680311f3a5a40222dc424db3b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 46/64] fix: LF colour factors below 128 were taken for huge
 ones

---
 frame/lfcoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..f531497 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -91,8 +91,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 		// TOOD(kpfaulkner) investigate what this really does.
 		lfc := frame.getLFGlobal().lfChanCorr
-		kX := lfc.baseCorrelationX + float32(lfc.xFactorLF-128)/float32(lfc.colorFactor)
-		kB := lfc.baseCorrelationB + float32(lfc.bFactorLF-128)/float32(lfc.colorFactor)
+		kX := lfc.baseCorrelationX + float32(int32(lfc.xFactorLF)-128)/float32(lfc.colorFactor)
+		kB := lfc.baseCorrelationB + float32(int32(lfc.bFactorLF)-128)/float32(lfc.colorFactor)
 		dqLFY := dequantLFCoeff[1]
 		dqLFX := dequantLFCoeff[0]
 		dqLFB := dequantLFCoeff[2]
-- 
2.43.0


From c488465028cf5da6d81c9cd7e8daf3f14a5ba0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 47/64] fix: filters and upsampling mirrored the padding at the
 edge of the frame

---
 frame/Frame.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index eb3a5a8..12b6c33 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -936,6 +936,15 @@ func (f *Frame) invertSubsampling() error {
 	return nil
 }
 
+// withoutPadding limits a size to that of the frame: what lies past the edge of it
+// only fills up the last blocks, and filters mirror the samples at the edge instead.
+func (f *Frame) withoutPadding(height int32, width int32) (int32, int32) {
+	if f.Header.Bounds == nil {
+		return height, width
+	}
+	return util.Min(height, int32(f.Header.Bounds.Size.Height)), util.Min(width, int32(f.Header.Bounds.Size.Width))
+}
+
 func (f *Frame) performGabConvolution() error {
 
 	// f.Buffer[c] is already wrong at this stage. We have -0.003936676 where as should be -0.000675
@@ -956,10 +965,9 @@ func (f *Frame) performGabConvolution() error {
 		if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 			return err
 		}
-		height := f.Buffer[c].Height
-		width := f.Buffer[c].Width
+		height, width := f.withoutPadding(f.Buffer[c].Height, f.Buffer[c].Width)
 		buffC := f.Buffer[c].FloatBuffer
-		newBuffer, err := image.NewImageBuffer(image.TYPE_FLOAT, height, width)
+		newBuffer, err := image.NewImageBuffer(image.TYPE_FLOAT, f.Buffer[c].Height, f.Buffer[c].Width)
 		if err != nil {
 			return err
 		}
@@ -1110,8 +1118,7 @@ func (f *Frame) performEdgePreservingFilter() error {
 	// Threshold for skipping EPF (1.0 / 0.3)
 	const skipThreshold = float32(1.0 / 0.3)
 
-	height := int32(paddedSize.Height)
-	width := int32(paddedSize.Width)
+	height, width := f.withoutPadding(int32(paddedSize.Height), int32(paddedSize.Width))
 
 	for i := 0; i < 3; i++ {
 		if i == 0 && f.Header.restorationFilter.epfIterations < 3 {
@@ -1488,6 +1495,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 		maxGoroutines = 1
 	}
 	rows := len(buffer)
+	height, width := f.withoutPadding(ib.Height, ib.Width)
 	rowsPerWorker := (rows + maxGoroutines - 1) / maxGoroutines
 	var wg sync.WaitGroup
 	errChan := make(chan error, min(maxGoroutines, rows))
@@ -1521,8 +1529,8 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
-									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-									newX := util.MirrorCoordinate(int32(x)+int32(ix)-2, int32(len(buffer[newY])))
+									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, height)
+									newX := util.MirrorCoordinate(int32(x)+int32(ix)-2, width)
 									sample := buffer[newY][newX]
 									if sample < min {
 										min = sample
-- 
2.43.0


From 76d95198137999580d42987df5f79d3969c2e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 48/64] fix: edges of images with subsampled chroma were made
 of the padding

The sizes of frames were rounded up, which let extra channels fail, and chroma was
interpolated with the samples that only fill up the last blocks.
---
 frame/Frame.go       | 19 +++++++++++++++----
 frame/FrameHeader.go |  7 +++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 12b6c33..e9171ab 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -873,6 +873,7 @@ func (f *Frame) invertSubsampling() error {
 				return err
 			}
 			newChannel := newBuffer.FloatBuffer
+			_, edge := f.subsampledSize(oldBuffer.Height, oldBuffer.Width, 0, xShift+1)
 			for y := 0; y < len(oldChannel); y++ {
 				oldRow := oldChannel[y]
 				//newRow := make([]float32, len(oldRow)*2)
@@ -885,8 +886,8 @@ func (f *Frame) invertSubsampling() error {
 					}
 					newRow[2*x] = b75 + 0.25*oldRow[xx]
 					xx = x + 1
-					if x+1 == len(oldRow) {
-						xx = len(oldRow) - 1
+					if x+1 == len(oldRow) || x+1 == edge {
+						xx = x
 					}
 					newRow[2*x+1] = b75 + 0.25*oldRow[xx]
 				}
@@ -909,6 +910,7 @@ func (f *Frame) invertSubsampling() error {
 				return err
 			}
 			newChannel := newBuffer.FloatBuffer
+			edge, _ := f.subsampledSize(oldBuffer.Height, oldBuffer.Width, yShift+1, 0)
 			for y := 0; y < len(oldChannel); y++ {
 				oldRow := oldChannel[y]
 				yy := y - 1
@@ -917,8 +919,8 @@ func (f *Frame) invertSubsampling() error {
 				}
 				oldRowPrev := oldChannel[yy]
 				yy = y + 1
-				if y+1 == len(oldChannel) {
-					yy = len(oldChannel) - 1
+				if y+1 == len(oldChannel) || y+1 == edge {
+					yy = y
 				}
 				oldRowNext := oldChannel[yy]
 				firstNewRow := newChannel[2*y]
@@ -936,6 +938,15 @@ func (f *Frame) invertSubsampling() error {
 	return nil
 }
 
+// subsampledSize is the size of a channel with fewer samples, without padding.
+func (f *Frame) subsampledSize(height int32, width int32, yShift int32, xShift int32) (int, int) {
+	if f.Header.Bounds == nil {
+		return int(height), int(width)
+	}
+	return int(util.Min(height, int32(util.CeilDiv(f.Header.Bounds.Size.Height, 1<<yShift)))),
+		int(util.Min(width, int32(util.CeilDiv(f.Header.Bounds.Size.Width, 1<<xShift))))
+}
+
 // withoutPadding limits a size to that of the frame: what lies past the edge of it
 // only fills up the last blocks, and filters mirror the samples at the edge instead.
 func (f *Frame) withoutPadding(height int32, width int32) (int32, int32) {
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index a3a2162..20c426f 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -394,8 +394,11 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 
 	maxJPY := util.Max(fh.jpegUpsamplingY...)
 	maxJPX := util.Max(fh.jpegUpsamplingX...)
-	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<maxJPY) << maxJPY
-	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, 1<<maxJPX) << maxJPX
+	if fh.Encoding != VARDCT {
+		// VarDCT frames have padded buffers anyway
+		fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<maxJPY) << maxJPY
+		fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, 1<<maxJPX) << maxJPX
+	}
 
 	for i := 0; i < 3; i++ {
 		fh.jpegUpsamplingY[i] = maxJPY - fh.jpegUpsamplingY[i]
-- 
2.43.0


From e36a19c41b94ab680c183c28d8d54bf47542841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 49/64] fix: upsampled frames with an origin were moved away
 from it

The origin was multiplied although it is that of the upsampled frame, and the frame
covered what was added to fill up its last samples.
---
 frame/Frame.go       | 9 ++++++---
 frame/FrameHeader.go | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index e9171ab..67d35e7 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1453,11 +1453,14 @@ func (f *Frame) Upsample() error {
 			f.Buffer[c] = *buf
 		}
 	}
+	// the origin of the frame is that of the upsampled one already, and what is added to
+	// fill up its last sample is not part of it.
 	f.Header.Bounds.Size.Height *= f.Header.Upsampling
 	f.Header.Bounds.Size.Width *= f.Header.Upsampling
-
-	f.Header.Bounds.Origin.Y *= int32(f.Header.Upsampling)
-	f.Header.Bounds.Origin.X *= int32(f.Header.Upsampling)
+	if full := f.Header.upsampledSize; full.Height > 0 && full.Width > 0 {
+		f.Header.Bounds.Size.Height = util.Min(f.Header.Bounds.Size.Height, full.Height)
+		f.Header.Bounds.Size.Width = util.Min(f.Header.Bounds.Size.Width, full.Width)
+	}
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 20c426f..b0fd3e7 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -49,6 +49,7 @@ type FrameHeader struct {
 	Width             uint32
 	Height            uint32
 	Upsampling        uint32
+	upsampledSize     util.Dimension
 	LfLevel           uint32
 	groupDim          uint32
 	Encoding          uint32
@@ -277,6 +278,7 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	fullFrame := fh.Bounds.Origin.Y <= 0 && fh.Bounds.Origin.X <= 0 &&
 		lowerCorner.Y >= int32(parent.Size.Height) && lowerCorner.X >= int32(parent.Size.Width)
 
+	fh.upsampledSize = fh.Bounds.Size
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, fh.Upsampling)
 	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, fh.Upsampling)
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<(3*fh.LfLevel))
-- 
2.43.0


From 8972c059aeca8f3a718e9391dc550b6c4cfb9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 50/64] fix: colour space XYB has no transfer function bits

---
 colour/colour_encoding_bundle.go | 35 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/colour/colour_encoding_bundle.go b/colour/colour_encoding_bundle.go
index b1e6c6e..317b83e 100644
--- a/colour/colour_encoding_bundle.go
+++ b/colour/colour_encoding_bundle.go
@@ -109,25 +109,30 @@ func NewColourEncodingBundleWithReader(reader jxlio.BitReader) (*ColourEncodingB
 	}
 
 	if !allDefault && !ceb.UseIccProfile {
-		var useGamma bool
-		if useGamma, err = reader.ReadBool(); err != nil {
-			return nil, err
-		}
-		if useGamma {
-			if tf, err := reader.ReadBits(24); err != nil {
+		if ceb.ColourEncoding != CE_XYB {
+			var useGamma bool
+			if useGamma, err = reader.ReadBool(); err != nil {
 				return nil, err
+			}
+			if useGamma {
+				if tf, err := reader.ReadBits(24); err != nil {
+					return nil, err
+				} else {
+					ceb.Tf = int32(tf)
+				}
 			} else {
-				ceb.Tf = int32(tf)
+				var tfEnum int32
+				if tfEnum, err = reader.ReadEnum(); err != nil {
+					return nil, err
+				}
+				ceb.Tf = (1 << 24) + tfEnum
 			}
-		} else {
-			var tfEnum int32
-			if tfEnum, err = reader.ReadEnum(); err != nil {
-				return nil, err
+			if !ValidateTransfer(ceb.Tf) {
+				return nil, errors.New("Illegal transfer function")
 			}
-			ceb.Tf = (1 << 24) + tfEnum
-		}
-		if !ValidateTransfer(ceb.Tf) {
-			return nil, errors.New("Illegal transfer function")
+		} else {
+			// implied, a gamma of one third
+			ceb.Tf = 3333333
 		}
 		if ceb.RenderingIntent, err = reader.ReadEnum(); err != nil {
 			return nil, err
-- 
2.43.0


From 6f4a0ebc2c255e53b0eb7ab6f134873c6c8195b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 51/64] fix: preview sizes in units of 8 are 8 times as large

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..a5a80aa 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -734,7 +734,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -758,7 +758,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From 5eced5a552a3e2046d1997ed3570599cee0b9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 52/64] fix: pieces of ICC profiles whose last row is short

---
 bundle/image_header.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index a5a80aa..94ab2d4 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -676,10 +676,20 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 
 func shuffle(buffer []byte, width int32) []byte {
 
-	height := int32(util.CeilDiv(uint32(len(buffer)), uint32(width)))
-	result := make([]byte, len(buffer))
-	for i := int32(0); i < int32(len(buffer)); i++ {
-		result[(i%height)*width+(i/height)] = buffer[i]
+	size := int32(len(buffer))
+	height := int32(util.CeilDiv(uint32(size), uint32(width)))
+	result := make([]byte, size)
+
+	// the last row is shorter than the others if size is not a multiple of width
+	column := int32(0)
+	from := int32(0)
+	for i := range result {
+		result[i] = buffer[from]
+		from += height
+		if from >= size {
+			column++
+			from = column
+		}
 	}
 	return result
 }
-- 
2.43.0


From 8647a17e67be680cf904e99a143430a1642ecb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 53/64] fix: predict ICC profiles of less than 42 bytes

---
 bundle/image_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 94ab2d4..d7200c1 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -943,6 +943,9 @@ func (h *ImageHeader) GetICCPrediction(buffer []byte, i int32) int32 {
 	if i >= 36 && i <= 39 {
 		return int32(ACSP[i-36])
 	}
+	if i <= 40 {
+		return 0
+	}
 	if buffer[40] == 'A' {
 		if i == 41 || i == 42 {
 			return 'P'
-- 
2.43.0


From dc3c6ffecfdf12f4b0c109a7635582833b1e3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 54/64] fix: an ICC profile that fails to decode was returned
 by the next call

---
 bundle/image_header.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d7200c1..f59a4d3 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -416,7 +416,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 	dataStart := commandStart + commandSize
 	dataReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[dataStart:]))
 	headerSize := util.Min(128, outputSize)
-	h.DecodedICC = make([]byte, outputSize)
+	decoded := make([]byte, outputSize)
 	resultPos := int32(0)
 
 	for i := int32(0); i < headerSize; i++ {
@@ -424,11 +424,12 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		p := h.GetICCPrediction(h.DecodedICC, i)
-		h.DecodedICC[resultPos] = byte(int32(e)+p) & 0xFF
+		p := h.GetICCPrediction(decoded, i)
+		decoded[resultPos] = byte(int32(e)+p) & 0xFF
 		resultPos++
 	}
 	if resultPos == outputSize {
+		h.DecodedICC = decoded
 		return h.DecodedICC, nil
 	}
 
@@ -440,7 +441,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 
 	if tagCount >= 0 {
 		for i := 24; i >= 0; i -= 8 {
-			h.DecodedICC[resultPos] = byte(tagCount>>i) & 0xFF
+			decoded[resultPos] = byte(tagCount>>i) & 0xFF
 			resultPos++
 		}
 		prevTagStart := 128 + tagCount*12
@@ -514,15 +515,15 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			for _, wTag := range tags {
 				tcr = []byte(wTag)
 				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = tcr[i] & 0xFF
+					decoded[resultPos] = tcr[i] & 0xFF
 					resultPos++
 				}
 				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagStart>>i) & 0xFF
+					decoded[resultPos] = byte(tagStart>>i) & 0xFF
 					resultPos++
 				}
 				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagSize>>i) & 0xFF
+					decoded[resultPos] = byte(tagSize>>i) & 0xFF
 					resultPos++
 				}
 				if tagCode == 3 {
@@ -546,7 +547,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					h.DecodedICC[resultPos] = byte(dat)
+					decoded[resultPos] = byte(dat)
 					resultPos++
 				}
 			} else if command == 2 || command == 3 {
@@ -569,7 +570,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					width = 4
 				}
 				b = shuffle(b, width)
-				copy(h.DecodedICC[resultPos:], b)
+				copy(decoded[resultPos:], b)
 				resultPos += int32(len(b))
 			} else if command == 4 {
 				flags, err := commandReader.ReadBits(8)
@@ -621,7 +622,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					for j := int32(0); j < n; j++ {
 						for k := int32(0); k < width; k++ {
 							prev[j] = prev[j] << 8
-							prev[j] = prev[j] | int32(h.DecodedICC[resultPos-stride*(j+1)+k]&0xFF)
+							prev[j] = prev[j] | int32(decoded[resultPos-stride*(j+1)+k]&0xFF)
 						}
 					}
 					var p int32
@@ -634,18 +635,18 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					}
 
 					for j := int32(0); j < width && i+j < num; j++ {
-						h.DecodedICC[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
+						decoded[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
 						resultPos++
 					}
 				}
 			} else if command == 10 {
-				h.DecodedICC[resultPos] = 'X'
+				decoded[resultPos] = 'X'
 				resultPos++
-				h.DecodedICC[resultPos] = 'Y'
+				decoded[resultPos] = 'Y'
 				resultPos++
-				h.DecodedICC[resultPos] = 'Z'
+				decoded[resultPos] = 'Z'
 				resultPos++
-				h.DecodedICC[resultPos] = ' '
+				decoded[resultPos] = ' '
 				resultPos++
 				resultPos += 4
 				for i := 0; i < 12; i++ {
@@ -653,14 +654,14 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					h.DecodedICC[resultPos] = byte(dat)
+					decoded[resultPos] = byte(dat)
 					resultPos++
 				}
 			} else if command >= 16 && command < 24 {
 				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
 				trc := []byte(s[command-16])
 				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = trc[i]
+					decoded[resultPos] = trc[i]
 					resultPos++
 				}
 				resultPos += 4
@@ -671,6 +672,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		}
 	}
 
+	h.DecodedICC = decoded
 	return h.DecodedICC, nil
 }
 
-- 
2.43.0


From 2d3f6cae31ab5d7329a96004ad2ba954c112c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 55/64] fix: ICC tag code 21 is illegal

---
 bundle/image_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index f59a4d3..279f038 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -471,7 +471,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				tag = "rTRC"
 			} else if tagCode == 3 {
 				tag = "rXYZ"
-			} else if tagCode >= 4 && tagCode <= 21 {
+			} else if tagCode >= 4 && tagCode <= 20 {
 				tag = iccTags[tagCode-4]
 			} else {
 				return nil, errors.New("illegal ICC tag code")
-- 
2.43.0


From b0cbb77740f40c2fd6e1727450703d34d71776e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 56/64] fix: ICC profiles without tags still have contents

---
 bundle/image_header.go | 228 ++++++++++++++++++++---------------------
 1 file changed, 114 insertions(+), 114 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 279f038..ccb19c6 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -531,144 +531,144 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				}
 			}
 		}
+	}
 
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
-			command, err := commandReader.ReadBits(8)
+	for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		command, err := commandReader.ReadBits(8)
+		if err != nil {
+			return nil, err
+		}
+		if command == 1 {
+			num, err := commandReader.ReadICCVarint()
 			if err != nil {
 				return nil, err
 			}
-			if command == 1 {
-				num, err := commandReader.ReadICCVarint()
+			for i := 0; i < int(num); i++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				for i := 0; i < int(num); i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					decoded[resultPos] = byte(dat)
-					resultPos++
-				}
-			} else if command == 2 || command == 3 {
-				num, err := commandReader.ReadICCVarint()
+				decoded[resultPos] = byte(dat)
+				resultPos++
+			}
+		} else if command == 2 || command == 3 {
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b := make([]byte, num)
+			for p := 0; p < int(num); p++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					b[p] = byte(dat)
-				}
-				var width int32
-				if command == 2 {
-					width = 2
-				} else {
-					width = 4
-				}
-				b = shuffle(b, width)
-				copy(decoded[resultPos:], b)
-				resultPos += int32(len(b))
-			} else if command == 4 {
-				flags, err := commandReader.ReadBits(8)
+				b[p] = byte(dat)
+			}
+			var width int32
+			if command == 2 {
+				width = 2
+			} else {
+				width = 4
+			}
+			b = shuffle(b, width)
+			copy(decoded[resultPos:], b)
+			resultPos += int32(len(b))
+		} else if command == 4 {
+			flags, err := commandReader.ReadBits(8)
+			if err != nil {
+				return nil, err
+			}
+			width := int32((flags & 3) + 1)
+			if width == 3 {
+				return nil, errors.New("illegal width is 3")
+			}
+			order := int32(flags&12) >> 2
+			if order == 3 {
+				return nil, errors.New("illegal order is 3")
+			}
+			var stride int32
+			if flags&0x10 > 0 {
+				dat, err := commandReader.ReadICCVarint()
 				if err != nil {
 					return nil, err
 				}
-				width := int32((flags & 3) + 1)
-				if width == 3 {
-					return nil, errors.New("illegal width is 3")
-				}
-				order := int32(flags&12) >> 2
-				if order == 3 {
-					return nil, errors.New("illegal order is 3")
-				}
-				var stride int32
-				if flags&0x10 > 0 {
-					dat, err := commandReader.ReadICCVarint()
-					if err != nil {
-						return nil, err
-					}
-					stride = dat
-				} else {
-					stride = int32(width)
-				}
-				if stride*4 >= resultPos {
-					return nil, errors.New("stride too large")
-				}
-				if stride < int32(width) {
-					return nil, errors.New("stride too small")
-				}
-				num, err := commandReader.ReadICCVarint()
+				stride = dat
+			} else {
+				stride = int32(width)
+			}
+			if stride*4 >= resultPos {
+				return nil, errors.New("stride too large")
+			}
+			if stride < int32(width) {
+				return nil, errors.New("stride too small")
+			}
+			num, err := commandReader.ReadICCVarint()
+			if err != nil {
+				return nil, err
+			}
+			b := make([]byte, num)
+			for p := 0; p < int(num); p++ {
+				dat, err := dataReader.ReadBits(8)
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
+				b[p] = byte(dat)
+			}
+			if width == 2 || width == 4 {
+				b = shuffle(b, int32(width))
+			}
+			for i := int32(0); i < num; i += width {
+				n := order + 1
+				prev := make([]int32, n)
+				for j := int32(0); j < n; j++ {
+					for k := int32(0); k < width; k++ {
+						prev[j] = prev[j] << 8
+						prev[j] = prev[j] | int32(decoded[resultPos-stride*(j+1)+k]&0xFF)
 					}
-					b[p] = byte(dat)
 				}
-				if width == 2 || width == 4 {
-					b = shuffle(b, int32(width))
+				var p int32
+				if order == 0 {
+					p = prev[0]
+				} else if order == 1 {
+					p = 2*prev[0] - prev[1]
+				} else {
+					p = 3*prev[0] - 3*prev[1] + prev[2]
 				}
-				for i := int32(0); i < num; i += width {
-					n := order + 1
-					prev := make([]int32, n)
-					for j := int32(0); j < n; j++ {
-						for k := int32(0); k < width; k++ {
-							prev[j] = prev[j] << 8
-							prev[j] = prev[j] | int32(decoded[resultPos-stride*(j+1)+k]&0xFF)
-						}
-					}
-					var p int32
-					if order == 0 {
-						p = prev[0]
-					} else if order == 1 {
-						p = 2*prev[0] - prev[1]
-					} else {
-						p = 3*prev[0] - 3*prev[1] + prev[2]
-					}
 
-					for j := int32(0); j < width && i+j < num; j++ {
-						decoded[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
-						resultPos++
-					}
-				}
-			} else if command == 10 {
-				decoded[resultPos] = 'X'
-				resultPos++
-				decoded[resultPos] = 'Y'
-				resultPos++
-				decoded[resultPos] = 'Z'
-				resultPos++
-				decoded[resultPos] = ' '
-				resultPos++
-				resultPos += 4
-				for i := 0; i < 12; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					decoded[resultPos] = byte(dat)
+				for j := int32(0); j < width && i+j < num; j++ {
+					decoded[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
 					resultPos++
 				}
-			} else if command >= 16 && command < 24 {
-				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
-				trc := []byte(s[command-16])
-				for i := 0; i < 4; i++ {
-					decoded[resultPos] = trc[i]
-					resultPos++
+			}
+		} else if command == 10 {
+			decoded[resultPos] = 'X'
+			resultPos++
+			decoded[resultPos] = 'Y'
+			resultPos++
+			decoded[resultPos] = 'Z'
+			resultPos++
+			decoded[resultPos] = ' '
+			resultPos++
+			resultPos += 4
+			for i := 0; i < 12; i++ {
+				dat, err := dataReader.ReadBits(8)
+				if err != nil {
+					return nil, err
 				}
-				resultPos += 4
-
-			} else {
-				return nil, errors.New("illegal data command")
+				decoded[resultPos] = byte(dat)
+				resultPos++
+			}
+		} else if command >= 16 && command < 24 {
+			s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
+			trc := []byte(s[command-16])
+			for i := 0; i < 4; i++ {
+				decoded[resultPos] = trc[i]
+				resultPos++
 			}
+			resultPos += 4
+
+		} else {
+			return nil, errors.New("illegal data command")
 		}
 	}
 
-- 
2.43.0


From 42ffc035f066e9114ebaea2b0fa8543527444fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 57/64] fix: overflow in the limit of the image size

---
 bundle/image_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index ccb19c6..6dacbfc 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -845,7 +845,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
-- 
2.43.0


From eb4ae503e668ed8af87c4846b03550418dfc177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 58/64] fix: exports of images with other primaries or white
 points than sRGB's were not converted

---
 core/jxl_image.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 776c7d3..7d942b1 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -391,7 +391,7 @@ func (jxl *JXLImage) transform(primaries *colour.CIEPrimaries, whitePoint *colou
 		return nil, err
 	}
 
-	if err := img.toneMapLinear(); err != nil {
+	if err := img.toneMapLinear(primaries, whitePoint); err != nil {
 		return nil, err
 	}
 
@@ -537,7 +537,33 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 	return nil, errors.New("linearize not implemented")
 }
 
-func (jxl *JXLImage) toneMapLinear() error {
+// toneMapLinear converts linear samples, in place, to other primaries and another white point.
+func (jxl *JXLImage) toneMapLinear(primaries *colour.CIEPrimaries, whitePoint *colour.CIEXY) error {
+	if jxl.ColorEncoding == colour.CE_GRAY || jxl.primariesXY == nil || jxl.whiteXY == nil {
+		return nil
+	}
+
+	m, err := colour.GetConversionMatrix(*primaries, *whitePoint, *jxl.primariesXY, *jxl.whiteXY)
+	if err != nil {
+		return err
+	}
+	var rgb [3][][]float32
+	for c := range rgb {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
+			return err
+		}
+		rgb[c] = jxl.Buffer[c].FloatBuffer
+	}
+	for y := 0; y < int(jxl.Height); y++ {
+		for x := 0; x < int(jxl.Width); x++ {
+			r, g, b := rgb[0][y][x], rgb[1][y][x], rgb[2][y][x]
+			for c := range rgb {
+				rgb[c][y][x] = m[c][0]*r + m[c][1]*g + m[c][2]*b
+			}
+		}
+	}
+	jxl.primariesXY = primaries
+	jxl.whiteXY = whitePoint
 	return nil
 }
 
-- 
2.43.0


From 9c693ac91fc131cf53ada403beddb947b8352452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 59/64] fix: the transform of 4x4 samples was not implemented

---
 frame/PassGroup.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 41c46f5..9a74ad9 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -264,7 +264,25 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				g.auxDCT2(coeffs[c], scratchBlock[1], ppg, util.ZERO, 2)
+				for y := int32(0); y < 2; y++ {
+					for x := int32(0); x < 2; x++ {
+						for iy := int32(0); iy < 4; iy++ {
+							for ix := int32(0); ix < 4; ix++ {
+								scratchBlock[0][iy][ix] = coeffs[c][ppg.Y+y+iy*2][ppg.X+x+ix*2]
+							}
+						}
+						scratchBlock[0][0][0] = scratchBlock[1][y][x]
+						ppf2 := util.Point{
+							X: ppf.X + x<<2,
+							Y: ppf.Y + y<<2,
+						}
+						if err := util.InverseDCT2D(scratchBlock[0], frameBuffer[c], util.ZERO, ppf2,
+							util.Dimension{Height: 4, Width: 4}, scratchBlock[2], scratchBlock[3], true); err != nil {
+							return err
+						}
+					}
+				}
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From d7c57e3df814126b37f30e5de6d23efe2263a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:15 +0000
Subject: [PATCH 60/64] fix: custom weights of 4x8 transforms were refused,
 those of 4x4 transforms scaled

---
 frame/HFGlobal.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index e731e2e..d938443 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -338,11 +338,9 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 		m := util.MakeMatrix2D[float32](3, 2)
 		for y := int32(0); y < 3; y++ {
 			for x := int32(0); x < 2; x++ {
-				mm, err := reader.ReadF16()
-				if err != nil {
+				if m[y][x], err = reader.ReadF16(); err != nil {
 					return err
 				}
-				m[y][x] = 64.0 * mm
 			}
 		}
 		dctParam, err := hfg.readDCTParams(reader)
@@ -350,6 +348,18 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			if m[y][0], err = reader.ReadF16(); err != nil {
+				return err
+			}
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From cbf09e8ecf56966dabb198b934f46796b9220f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 61/64] fix: implicit palette colours of samples of one or two
 bits were too dark

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index ae391c8..9e03b8c 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -543,7 +543,7 @@ func (ms *ModularStream) applyTransforms() error {
 						} else if index >= int32(ms.transforms[i].nbColours) {
 							index -= int32(ms.transforms[i].nbColours)
 							if index < 64 {
-								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << util.Max(0, bitDepth-3)))
+								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << (util.Max(3, bitDepth) - 3)))
 							} else {
 								index -= 64
 								for k := 0; k < c; k++ {
-- 
2.43.0


From 359a33d435eb6412b2ad5440bee97c3499651f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:15 +0000
Subject: [PATCH 62/64] fix: a damaged ICC profile made GetDecodedICC panic

---
 bundle/image_header.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 6dacbfc..5b44bf6 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -393,7 +393,13 @@ func (h *ImageHeader) GetTotalChannelCount() int {
 	return len(h.ExtraChannelInfo) + h.GetColourChannelCount()
 }
 
-func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
+func (h *ImageHeader) GetDecodedICC() (icc []byte, err error) {
+	// the lengths in a damaged profile lead out of the buffers
+	defer func() {
+		if r := recover(); r != nil {
+			icc, err = nil, fmt.Errorf("invalid ICC profile: %v", r)
+		}
+	}()
 	if len(h.DecodedICC) > 0 {
 		return h.DecodedICC, nil
 	}
-- 
2.43.0


From 687ec575dc10ca9f6315d067f0eebd8c918e3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:00 +0000
Subject: [PATCH 63/64] fix: ChannelToImage gave the low byte of channels of
 other than 8 bits

---
 core/jxl_image.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 7d942b1..1cbf58c 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -187,27 +187,30 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	if channelNo < 0 || channelNo >= len(buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
+	// the image has 8 bits per sample.
+	channel := &buffer[channelNo]
+	if channel.IsInt() && jxl.bitDepths[channelNo] != 8 {
+		if err := channel.CastToFloatIfMax(^(^0 << jxl.bitDepths[channelNo])); err != nil {
+			return nil, err
+		}
+	}
+	if channel.IsInt() {
+		err = channel.Clamp(255)
+	} else {
+		err = channel.CastToIntIfMax(255)
+	}
+	if err != nil {
+		return nil, err
+	}
 	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[channelNo].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-
-				// Assumption of 8 bits per channel. Will do for now.
-				pix[pos] = uint8(buffer[channelNo].FloatBuffer[y][x] * 255)
-				pos++
-			}
-		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[channelNo].IntBuffer[y][x])
-				pos++
-			}
+	for y := 0; y < dy; y++ {
+		for x := 0; x < dx; x++ {
+			pix[pos] = uint8(channel.IntBuffer[y][x])
+			pos++
 		}
 	}
 	return img, nil
-- 
2.43.0


From d1fe47681da8c104822fb0674f8c4e14684457e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:00 +0000
Subject: [PATCH 64/64] fix: DecodeConfig reported a colour model Decode does
 not return

---
 reader.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index da1ee2b..399f629 100644
--- a/reader.go
+++ b/reader.go
@@ -63,15 +63,12 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 
 	var colourModel color2.Model
 
+	// the colour models of the images that Decode returns.
 	switch header.GetColourModel() {
-	case colour.CE_RGB:
-		colourModel = color2.RGBAModel
-	case colour.CE_XYB:
-		colourModel = color2.GrayModel // unsure how to deal with XYB
 	case colour.CE_GRAY:
 		colourModel = color2.GrayModel
 	default:
-		colourModel = color2.RGBAModel
+		colourModel = color2.NRGBAModel
 	}
 
 	return image.Config{
-- 
2.43.0

