From cb1338585c3eed9de3e119925a43d136dc436e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 01/39] fix: UBuf.ReadFrom keeps the bytes a reader returns
 together with an error

---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index b9a7598..7a66cfb 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -472,13 +472,11 @@ func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {
 	ub.resolveCopyOnWriteIfNeed()
 
 	length, err := r.Read(ub.data.bytes[ub.writerIndex:])
-	if err != nil {
-		return 0, err
-	}
 
+	// the reader may return data together with an error, keep the data
 	ub.writerIndex += length
 
-	return int64(length), nil
+	return int64(length), err
 }
 
 // ReadU16 returns uint16 data or error
-- 
2.43.0


From 82ec6a2e3477476bd4ec5a3c5db001c6a1e25926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 02/39] fix: UBuf.WriteTo consumes the bytes it reports written
 when the writer fails

---
 ubuf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 7a66cfb..2b53f0c 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -352,13 +352,11 @@ func (ub *UBuf) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	written, err := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])
-	if err != nil {
-		return int64(written), err
-	}
 
+	// what the writer took is consumed, even if it failed afterwards
 	ub.readerIndex += written
 
-	return int64(written), nil
+	return int64(written), err
 }
 
 // WriteU16 writes uint16 data into data space
-- 
2.43.0


From 0e3b6c2d3e9ce8769f44222506107db51f38c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 03/39] fix: UBufFrom makes the whole advertised capacity of
 the slice usable

---
 ubuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ubuf.go b/ubuf.go
index 2b53f0c..00bc188 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -105,7 +105,7 @@ func UBufFromWithHeadReserved(data []byte, reserved int) *UBuf {
 		writerIndex: reserved,
 		data: &uBufData{
 			refCount: 1,
-			bytes:    data,
+			bytes:    data[:capacity],
 		},
 		copyOnWrite: false,
 	}
-- 
2.43.0


From de644aed55902b85fce162d223049f6f4fb9fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 04/39] fix: UBuf head writes on a copy-on-write snapshot no
 longer panic

---
 ubuf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ubuf.go b/ubuf.go
index 00bc188..50d420a 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -564,6 +564,10 @@ func (ub *UBuf) writeHead(dataSize int, fn func() error) error {
 		return errors.New("UBuf Head room is not enouth")
 	}
 
+	// must be done before moving the writerIndex, it copies
+	// the data between readerIndex and writerIndex
+	ub.resolveCopyOnWriteIfNeed()
+
 	// all the writes are from writerIndex
 	// backup the writerIndex first
 	oldWriterIndex := ub.writerIndex
-- 
2.43.0


From c6de9fc6f4320746a5fd6a17f13198edf044eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:25 +0000
Subject: [PATCH 05/39] fix: Filter and Forwarder no longer call a nil function
 on every message

---
 proc_filter.go    | 2 +-
 proc_forwarder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 3d6f4ad..486fdcb 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -18,7 +18,7 @@ type Filter struct {
 func NewFilter(filterFn ...FilterFn) DataProcessor {
 	filter := &Filter{
 		ProcBase:  NewProcBaseInstance("Filter"),
-		filterFn:  make([]FilterFn, 1),
+		filterFn:  make([]FilterFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index dfe1199..b68ac3d 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -18,7 +18,7 @@ type Forwarder struct {
 func NewForwarder(forwardFn ...ForwardFn) DataProcessor {
 	fwd := &Forwarder{
 		ProcBase:  NewProcBaseInstance("Forwarder"),
-		forwardFn: make([]ForwardFn, 1),
+		forwardFn: make([]ForwardFn, 0),
 		txCounter: 0,
 		rxCounter: 0,
 	}
-- 
2.43.0


From cc18516818ab8c7ad91974ec48224ff7bb7c4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:13 +0000
Subject: [PATCH 06/39] fix: FrameDecoder passes outgoing reference data down
 instead of recursing into the upper layer

---
 proc_frame_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 0666121..10e5c0c 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -36,7 +36,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
 	if context.GetConnection().UseReference() {
-		frm.upper.OnUpperData(context)
+		frm.lower.OnUpperData(context)
 		return
 	}
 
-- 
2.43.0


From 0b0e954fc7ef3d27c915de5d6986474e47a62f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:04 +0000
Subject: [PATCH 07/39] fix: FrameDecoder reassembles frames split over several
 reads

A frame whose last bytes were missing was handed up truncated, because the
size field was counted as frame data, and the room of handled frames was
never given back, so that the cache overflowed and the stream lost sync.
---
 proc_frame_decoder.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 10e5c0c..d254d09 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -54,11 +54,12 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 }
 
 // handleCurrentData ...
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
+// returns true if the cache is full and there is still data in ub
+func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 	// if there is data in cache, put current data into cache
 	if frm.cache.ReadableLength() > 0 {
 		frm.cache.ReadFrom(ub)
-		return
+		return ub.ReadableLength() > 0
 	}
 
 	// cache is empty
@@ -67,22 +68,23 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
 			frm.cache.ReadFrom(ub)
-			return
+			return ub.ReadableLength() > 0
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
 			frm.cache.Reset()
-			return
+			return false
 		}
 
-		actuallyLength := uint32(ub.ReadableLength())
+		// the size field itself is not counted in the frame length
+		actuallyLength := uint32(ub.ReadableLength() - FrameLengthFieldSizeInByte)
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
 			frm.cache.ReadFrom(ub)
-			return
+			return ub.ReadableLength() > 0
 		}
 
 		// just one frame, need not to alloc new UBuf
@@ -92,7 +94,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 
 			context.SetBuffer(ub)
 			frm.upper.OnLowerData(context)
-			return
+			return false
 		}
 
 		// here: expectedLength < actuallyLength
@@ -107,7 +109,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 		if err != nil {
 			// bad buffer, discard it
 			frm.cache.Reset()
-			return
+			return false
 		}
 
 		context.SetBuffer(newUbuf)
@@ -117,6 +119,15 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) {
 	}
 }
 
+// compactCache moves the cached data to the head of the cache,
+// so that the handled data does not occupy the room
+func (frm *FrameDecoder) compactCache() {
+	data := make([]byte, frm.cache.ReadableLength())
+	frm.cache.Read(data)
+	frm.cache.Reset()
+	frm.cache.Write(data)
+}
+
 // handleCachedData ...
 func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 	// handle as much as possiable with loop
@@ -130,6 +141,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 
 		if cachedLength < FrameLengthFieldSizeInByte {
 			// wait for more data
+			frm.compactCache()
 			return
 		}
 
@@ -140,8 +152,10 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
-		if cachedLength < int(expectedLength) {
+		// the size field itself is not counted in the frame length
+		if cachedLength-FrameLengthFieldSizeInByte < int(expectedLength) {
 			// wait for more data
+			frm.compactCache()
 			return
 		}
 
@@ -180,7 +194,16 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 
 	if frm.enable {
 		// handle current received data
-		frm.handleCurrentData(context, ub)
+		for frm.handleCurrentData(context, ub) {
+			// the cache is full, make room for the remaining data
+			frm.handleCachedData(context, ub)
+
+			if frm.cache.TailWritableLength() == 0 {
+				// the frame is larger than the cache, discard it
+				frm.cache.Reset()
+				return
+			}
+		}
 
 		// handle history cached data
 		frm.handleCachedData(context, ub)
-- 
2.43.0


From 0c63cec0f9a2ee28c850b882f37ae638317e3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:05 +0000
Subject: [PATCH 08/39] fix: FrameDecoder ignores an empty frame instead of
 panicking

---
 proc_frame_decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index d254d09..43aa098 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -87,6 +87,12 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 			return ub.ReadableLength() > 0
 		}
 
+		// empty frame, nothing for uplayer
+		if expectedLength == 0 {
+			ub.ReadU32BE()
+			continue
+		}
+
 		// just one frame, need not to alloc new UBuf
 		if expectedLength == actuallyLength {
 			// drop size-field-data by dummy reading
@@ -159,6 +165,12 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 			return
 		}
 
+		// empty frame, nothing for uplayer
+		if expectedLength == 0 {
+			frm.cache.ReadU32BE()
+			continue
+		}
+
 		// there must have at least one complete frame
 		newUbuf := UBufAlloc(int(expectedLength))
 
-- 
2.43.0


From 14f9cec70590cbc2a53e61d2a61be5812e4e63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:06 +0000
Subject: [PATCH 09/39] fix: FrameDecoder keeps head room in rebuilt frames so
 that they can be sent back

Echo above FrameDecoder sent the second and following frames of a read
without a frame header, as there was no room to write it.
---
 proc_frame_decoder.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 43aa098..e4caceb 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -53,6 +53,13 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// newFrame returns an empty buffer for a frame with given length,
+// with the head room that is needed if the frame is sent out again
+func (frm *FrameDecoder) newFrame(length uint32) *UBuf {
+	overhead := frm.ustack.GetOverhead()
+	return UBufAllocWithHeadReserved(overhead+int(length), overhead)
+}
+
 // handleCurrentData ...
 // returns true if the cache is full and there is still data in ub
 func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
@@ -105,7 +112,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 
 		// here: expectedLength < actuallyLength
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := frm.newFrame(expectedLength)
 
 		// drop size-field-data by dummy reading
 		ub.ReadU32BE()
@@ -172,7 +179,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		}
 
 		// there must have at least one complete frame
-		newUbuf := UBufAlloc(int(expectedLength))
+		newUbuf := frm.newFrame(expectedLength)
 
 		// drop size-field-data by dummy reading
 		frm.cache.ReadU32BE()
-- 
2.43.0


From 29215138c7c81f6face2f6c43a1606831f7ad2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:22 +0000
Subject: [PATCH 10/39] fix: FrameDecoder keeps the partial frame of each
 connection apart

One cache was shared by all connections, so that partial frames of different
connections were mixed up.
---
 proc_frame_decoder.go | 92 ++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index e4caceb..b52ec11 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 const FrameLengthFieldSizeInByte int = 4
@@ -15,7 +16,8 @@ const FrameLengthFieldSizeInByte int = 4
 type FrameDecoder struct {
 	ProcBase
 	cacheCapacity int
-	cache         *UBuf
+	mutex         sync.Mutex
+	caches        map[TransportConnection]*UBuf
 }
 
 // NewFrameDecoder ...
@@ -23,7 +25,7 @@ func NewFrameDecoder() DataProcessor {
 	frm := &FrameDecoder{
 		ProcBase:      NewProcBaseInstance("FrameDecoder"),
 		cacheCapacity: 1024,
-		cache:         nil,
+		caches:        make(map[TransportConnection]*UBuf, 16),
 	}
 	return frm.ProcBase.SetWhere(frm)
 }
@@ -53,6 +55,20 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
+// getCache returns the cache of the connection
+func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
+	frm.mutex.Lock()
+	defer frm.mutex.Unlock()
+
+	cache, ok := frm.caches[connection]
+	if !ok {
+		cache = UBufAlloc(frm.cacheCapacity)
+		frm.caches[connection] = cache
+	}
+
+	return cache
+}
+
 // newFrame returns an empty buffer for a frame with given length,
 // with the head room that is needed if the frame is sent out again
 func (frm *FrameDecoder) newFrame(length uint32) *UBuf {
@@ -62,10 +78,10 @@ func (frm *FrameDecoder) newFrame(length uint32) *UBuf {
 
 // handleCurrentData ...
 // returns true if the cache is full and there is still data in ub
-func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
+func (frm *FrameDecoder) handleCurrentData(context Context, cache *UBuf, ub *UBuf) bool {
 	// if there is data in cache, put current data into cache
-	if frm.cache.ReadableLength() > 0 {
-		frm.cache.ReadFrom(ub)
+	if cache.ReadableLength() > 0 {
+		cache.ReadFrom(ub)
 		return ub.ReadableLength() > 0
 	}
 
@@ -74,14 +90,14 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 	for {
 		// very less data, cache the data
 		if ub.ReadableLength() < FrameLengthFieldSizeInByte {
-			frm.cache.ReadFrom(ub)
+			cache.ReadFrom(ub)
 			return ub.ReadableLength() > 0
 		}
 
 		expectedLength, err := ub.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return false
 		}
 
@@ -90,7 +106,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 
 		// not a complete frame, cache the data
 		if expectedLength > actuallyLength {
-			frm.cache.ReadFrom(ub)
+			cache.ReadFrom(ub)
 			return ub.ReadableLength() > 0
 		}
 
@@ -121,7 +137,7 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 		_, err = io.CopyN(newUbuf, ub, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return false
 		}
 
@@ -134,47 +150,47 @@ func (frm *FrameDecoder) handleCurrentData(context Context, ub *UBuf) bool {
 
 // compactCache moves the cached data to the head of the cache,
 // so that the handled data does not occupy the room
-func (frm *FrameDecoder) compactCache() {
-	data := make([]byte, frm.cache.ReadableLength())
-	frm.cache.Read(data)
-	frm.cache.Reset()
-	frm.cache.Write(data)
+func (frm *FrameDecoder) compactCache(cache *UBuf) {
+	data := make([]byte, cache.ReadableLength())
+	cache.Read(data)
+	cache.Reset()
+	cache.Write(data)
 }
 
 // handleCachedData ...
-func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
+func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf) {
 	// handle as much as possiable with loop
 	for {
-		cachedLength := frm.cache.ReadableLength()
+		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
 		if cachedLength < FrameLengthFieldSizeInByte {
 			// wait for more data
-			frm.compactCache()
+			frm.compactCache(cache)
 			return
 		}
 
-		expectedLength, err := frm.cache.PeekU32BE()
+		expectedLength, err := cache.PeekU32BE()
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
 		// the size field itself is not counted in the frame length
 		if cachedLength-FrameLengthFieldSizeInByte < int(expectedLength) {
 			// wait for more data
-			frm.compactCache()
+			frm.compactCache(cache)
 			return
 		}
 
 		// empty frame, nothing for uplayer
 		if expectedLength == 0 {
-			frm.cache.ReadU32BE()
+			cache.ReadU32BE()
 			continue
 		}
 
@@ -182,13 +198,13 @@ func (frm *FrameDecoder) handleCachedData(context Context, ub *UBuf) {
 		newUbuf := frm.newFrame(expectedLength)
 
 		// drop size-field-data by dummy reading
-		frm.cache.ReadU32BE()
+		cache.ReadU32BE()
 
 		// fill the new buffer for uplayer
-		_, err = io.CopyN(newUbuf, frm.cache, int64(expectedLength))
+		_, err = io.CopyN(newUbuf, cache, int64(expectedLength))
 		if err != nil {
 			// bad buffer, discard it
-			frm.cache.Reset()
+			cache.Reset()
 			return
 		}
 
@@ -212,25 +228,39 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 	}
 
 	if frm.enable {
+		cache := frm.getCache(context.GetConnection())
+
 		// handle current received data
-		for frm.handleCurrentData(context, ub) {
+		for frm.handleCurrentData(context, cache, ub) {
 			// the cache is full, make room for the remaining data
-			frm.handleCachedData(context, ub)
+			frm.handleCachedData(context, cache)
 
-			if frm.cache.TailWritableLength() == 0 {
+			if cache.TailWritableLength() == 0 {
 				// the frame is larger than the cache, discard it
-				frm.cache.Reset()
+				cache.Reset()
 				return
 			}
 		}
 
 		// handle history cached data
-		frm.handleCachedData(context, ub)
+		frm.handleCachedData(context, cache)
 	} else {
 		frm.upper.OnLowerData(context)
 	}
 }
 
+// OnEvent releases the cache of closed connection
+func (frm *FrameDecoder) OnEvent(event Event) {
+	if event.Type == UStackEventConnectionClosed {
+		connection, ok := event.Data.(TransportConnection)
+		if ok {
+			frm.mutex.Lock()
+			delete(frm.caches, connection)
+			frm.mutex.Unlock()
+		}
+	}
+}
+
 // Run ...
 func (frm *FrameDecoder) Run() DataProcessor {
 	cacheCapacity, exists := OptionParseInt(frm.GetOption("CacheCapacity"), 2*frm.ustack.GetMTU())
@@ -241,7 +271,5 @@ func (frm *FrameDecoder) Run() DataProcessor {
 		fmt.Println("FrameDecoder: option CacheCapacity:", frm.cacheCapacity)
 	}
 
-	frm.cache = UBufAlloc(frm.cacheCapacity)
-
 	return frm
 }
-- 
2.43.0


From 18d3e3d38d47e81bd7925e15e2dde04592807d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:22 +0000
Subject: [PATCH 11/39] fix: UpperDeck stops serving a deleted endpoint

The sending routine looked its stop channel up in the endpoints map without
the lock: it raced with adding and deleting endpoints, and when it was busy
while its endpoint was deleted it never saw the stop and kept sending.
---
 proc_upperdeck.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index d889fd8..89348da 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -36,7 +36,8 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	ud.endpoints[ep] = make(chan bool, 1)
+	stopchan := make(chan bool, 1)
+	ud.endpoints[ep] = stopchan
 
 	session := ep.GetSession()
 	txchan := ep.GetTxChannel()
@@ -47,11 +48,16 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	go func() {
 		for {
 			select {
-			case stop := <-ud.endpoints[ep]:
-				if stop {
+			case <-stopchan:
+				return
+			case epd := <-txchan:
+				select {
+				case <-stopchan:
+					// the endpoint was deleted
 					return
+				default:
 				}
-			case epd := <-txchan:
+
 				destinationSession := session
 				if epd.HasDestinationSession() {
 					destinationSession = epd.GetDestinationSession()
-- 
2.43.0


From 0d95f3d6fb6ffd06c22ce50edcfd9266d5eb5d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:12 +0000
Subject: [PATCH 12/39] fix: deleting an endpoint or transport while an event
 is published skips nobody

The delete shifted the slice that PublishEvent was iterating over, so that a
listener which deleted an endpoint made another endpoint miss the event, and
the index could be stale after the listeners ran.
---
 ustack_default.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index 01a87c6..defcea6 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -212,7 +212,7 @@ func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for i, endpoint := range u.endpoints {
+	for _, endpoint := range u.endpoints {
 		if endpoint != ep {
 			continue
 		}
@@ -223,8 +223,15 @@ func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
 			Data:   ep,
 		})
 
-		// delete
-		u.endpoints = append(u.endpoints[:i], u.endpoints[i+1:]...)
+		// delete, the listeners may have changed the endpoints,
+		// and the old slice may be in use by a publishing
+		var endpoints []EndPoint
+		for _, endpoint := range u.endpoints {
+			if endpoint != ep {
+				endpoints = append(endpoints, endpoint)
+			}
+		}
+		u.endpoints = endpoints
 
 		break
 	}
@@ -279,8 +286,9 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 			continue
 		}
 
-		// delete
-		u.transports = append(u.transports[:i], u.transports[i+1:]...)
+		// delete, the old slice may be in use
+		transports := append([]Transport{}, u.transports[:i]...)
+		u.transports = append(transports, u.transports[i+1:]...)
 
 		u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
-- 
2.43.0


From a555d4da1ece4bafee70b08f40292782945f3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 13/39] fix: guard the endpoint, transport and listener lists
 of UStack

Connections publish events from their own routines while the application adds
and deletes endpoints and transports, and concurrent updates lost entries.
---
 ustack_default.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/ustack_default.go b/ustack_default.go
index defcea6..8e731db 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -4,7 +4,10 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 const (
 	defaultMTU int = 2048
@@ -77,6 +80,7 @@ func (c *DefaultUStackContext) GetMessage() interface{} {
 
 // DefaultUStack ...
 type DefaultUStack struct {
+	mutex      sync.Mutex // protects endpoints, transports and listeners
 	name       string
 	mtu        int
 	options    map[string]interface{}
@@ -193,7 +197,7 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range u.GetEndPoint() {
 		if endpoint == ep {
 			// was added
 			return u
@@ -206,13 +210,16 @@ func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
 		Data:   ep,
 	})
 
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.endpoints = append(u.endpoints, ep)
 	return u
 }
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range u.GetEndPoint() {
 		if endpoint != ep {
 			continue
 		}
@@ -225,6 +232,9 @@ func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
 
 		// delete, the listeners may have changed the endpoints,
 		// and the old slice may be in use by a publishing
+		u.mutex.Lock()
+		defer u.mutex.Unlock()
+
 		var endpoints []EndPoint
 		for _, endpoint := range u.endpoints {
 			if endpoint != ep {
@@ -241,6 +251,9 @@ func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
 
 // GetEndPoint ...
 func (u *DefaultUStack) GetEndPoint() []EndPoint {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.endpoints
 }
 
@@ -262,7 +275,7 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
-	for _, transport := range u.transports {
+	for _, transport := range u.GetTransport() {
 		if transport == tp {
 			// was added
 			return u
@@ -275,12 +288,17 @@ func (u *DefaultUStack) AddTransport(tp Transport) UStack {
 		Data:   tp,
 	})
 
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.transports = append(u.transports, tp)
 	return u
 }
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
+	u.mutex.Lock()
+
 	for i, transport := range u.transports {
 		if transport != tp {
 			continue
@@ -290,35 +308,50 @@ func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
 		transports := append([]Transport{}, u.transports[:i]...)
 		u.transports = append(transports, u.transports[i+1:]...)
 
+		u.mutex.Unlock()
+
 		u.PublishEvent(Event{
 			Type:   UStackEventTransportDeleted,
 			Source: u,
 			Data:   tp,
 		})
 
-		break
+		return u
 	}
 
+	u.mutex.Unlock()
+
 	return u
 }
 
 // GetTransport ...
 func (u *DefaultUStack) GetTransport() []Transport {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	return u.transports
 }
 
 // SetEventListener ...
 func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
 	u.listeners = append(u.listeners, listener)
 	return u
 }
 
 // PublishEvent ...
 func (u *DefaultUStack) PublishEvent(event Event) UStack {
-	for _, listener := range u.listeners {
+	u.mutex.Lock()
+	listeners := u.listeners
+	u.mutex.Unlock()
+
+	// call out without the lock, a listener may use the ustack
+	for _, listener := range listeners {
 		listener(event)
 	}
-	for _, endpoint := range u.endpoints {
+	for _, endpoint := range u.GetEndPoint() {
 		endpoint.OnEvent(event)
 	}
 	if u.upperDeck != nil {
-- 
2.43.0


From b2636938eba508fda0de6fe5314375b119696cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 14/39] fix: LowerDeck delivers the bytes that a connection
 returns together with its error

---
 proc_lowerdeck.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index fb8b912..2eea759 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -73,15 +73,17 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 						ub := UBufAlloc(ld.ustack.GetMTU())
 
 						n, err := ub.ReadFrom(connection)
+						if n > 0 {
+							// invoke the uplayer
+							ld.upper.OnLowerData(
+								NewUStackContext().
+									SetConnection(connection).
+									SetBuffer(ub))
+						}
 						if n == 0 || err != nil {
 							ld.closeConnection(connection)
 							return
 						}
-						// invoke the uplayer
-						ld.upper.OnLowerData(
-							NewUStackContext().
-								SetConnection(connection).
-								SetBuffer(ub))
 					}
 				}
 			}()
-- 
2.43.0


From e17d5a40d3c9c2b8d970f30168256cb76abcfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 15/39] fix: LowerDeck publishes ConnectionClosed once per
 connection

When a send failed, the sending routine published the event and the receiving
routine published it again as it found the connection closed.
---
 proc_lowerdeck.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index 2eea759..e28f4bf 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -4,17 +4,23 @@
 
 package ustack
 
-import "fmt"
+import (
+	"fmt"
+	"sync"
+)
 
 // LowerDeck manages transports
 type LowerDeck struct {
 	ProcBase
+	mutex       sync.Mutex
+	connections map[TransportConnection]bool
 }
 
 // NewLowerDeck returns a new instance
 func NewLowerDeck() DataProcessor {
 	ld := &LowerDeck{
-		NewProcBaseInstance("LowerDeck"),
+		ProcBase:    NewProcBaseInstance("LowerDeck"),
+		connections: make(map[TransportConnection]bool, 16),
 	}
 	return ld.ProcBase.SetWhere(ld)
 }
@@ -23,6 +29,17 @@ func (ld *LowerDeck) closeConnection(c TransportConnection) {
 	// close first
 	c.Close()
 
+	// both the receiving and the sending side may detect the close
+	// publish the event only once
+	ld.mutex.Lock()
+	opened := ld.connections[c]
+	delete(ld.connections, c)
+	ld.mutex.Unlock()
+
+	if !opened {
+		return
+	}
+
 	// publish event
 	ld.ustack.PublishEvent(Event{
 		Type:   UStackEventConnectionClosed,
@@ -48,6 +65,10 @@ func (ld *LowerDeck) acceptTransport(tp Transport) {
 
 			fmt.Println("New connection:", connection.GetName(), "on transport:", tp.GetName())
 
+			ld.mutex.Lock()
+			ld.connections[connection] = true
+			ld.mutex.Unlock()
+
 			// publish event
 			ld.ustack.PublishEvent(Event{
 				Type:   UStackEventNewConnection,
-- 
2.43.0


From 15e454005cee5a71122f71f646073d4f3c76ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 16/39] fix: stopping a TCP or unix transport no longer crashes
 it or leaks its connections

- Stop before the listener was up, or before the client was connected, let the
  routine go on and panic on the closed channel at the next connection
- the routine of a stopped run could stop the next run, or remove its socket
- a connection that was not taken over yet was not closed
- NextConnection saved nil as connection, the next Stop panicked (tcp)
---
 tran_tcp.go  | 104 ++++++++++++++++++++++++++++++++++++------------
 tran_unix.go | 110 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 158 insertions(+), 56 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index ea70b73..b0282c7 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -98,6 +98,7 @@ type TCPTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan bool
 	// for server
 	listener net.Listener
 	// for client
@@ -135,19 +136,35 @@ func (t *TCPTransport) parseOptions() {
 func (t *TCPTransport) doInit() {
 	t.connections = make([]TransportConnection, 0)
 	t.next = make(chan TransportConnection, 16)
+	t.done = make(chan bool)
 }
 
 // saveConnections ...
-func (t *TCPTransport) saveConnection(tc TransportConnection) {
+// returns false if the transport was stopped, or stopped and run again
+func (t *TCPTransport) saveConnection(tc TransportConnection, done chan bool) bool {
 	t.Lock()
 	defer t.Unlock()
 
-	for _, c := range t.connections {
-		if c == tc {
-			return
-		}
+	if !t.isRunning || t.done != done {
+		return false
 	}
+
 	t.connections = append(t.connections, tc)
+	return true
+}
+
+// offer hands the new connection over to NextConnection
+func (t *TCPTransport) offer(tc TransportConnection, next chan TransportConnection, done chan bool) {
+	if !t.saveConnection(tc, done) {
+		tc.Close()
+		return
+	}
+
+	select {
+	case next <- tc:
+	case <-done:
+		// stopped, the connection was closed
+	}
 }
 
 // dropConnections ...
@@ -158,7 +175,15 @@ func (t *TCPTransport) dropConnections() {
 }
 
 // accept ...
-func (t *TCPTransport) accept() {
+func (t *TCPTransport) accept(next chan TransportConnection, done chan bool) {
+	t.Lock()
+
+	if !t.isRunning || t.done != done {
+		// was stopped
+		t.Unlock()
+		return
+	}
+
 	listener, err := net.Listen("tcp", t.address)
 	if err != nil {
 		log.Fatal(err)
@@ -166,44 +191,51 @@ func (t *TCPTransport) accept() {
 
 	t.listener = listener
 
+	t.Unlock()
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := t.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		t.next <- NewTCPTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		t.offer(NewTCPTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done)
 	}
 
-	t.Stop()
+	t.stop(done)
 }
 
 // connect ...
-func (t *TCPTransport) connect() {
+func (t *TCPTransport) connect(next chan TransportConnection, done chan bool) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < t.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("tcp", t.address, time.Second)
 
 		if connection != nil && err == nil {
-			t.next <- NewTCPTransportConnection(
+			t.offer(NewTCPTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i)
 
-		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))
+		select {
+		case <-done:
+			// was stopped
+			return
+		case <-time.After(time.Second * time.Duration(t.retryIntervalInSecond)):
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
 
-	t.Stop()
+	t.stop(done)
 }
 
 // ForServer ...
@@ -244,9 +276,16 @@ func (t *TCPTransport) GetAddress() string {
 
 // NextConnection ...
 func (t *TCPTransport) NextConnection() TransportConnection {
-	next := <-t.next
-	t.saveConnection(next)
-	return next
+	t.Lock()
+	next, done := t.next, t.done
+	t.Unlock()
+
+	select {
+	case connection := <-next:
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -264,9 +303,9 @@ func (t *TCPTransport) Run() Transport {
 	t.doInit()
 
 	if t.forServer {
-		go t.accept()
+		go t.accept(t.next, t.done)
 	} else {
-		go t.connect()
+		go t.connect(t.next, t.done)
 	}
 	return t
 }
@@ -276,8 +315,25 @@ func (t *TCPTransport) Stop() Transport {
 	t.Lock()
 	defer t.Unlock()
 
+	t.doStop()
+
+	return t
+}
+
+// stop stops the transport if it is still in the run that done belongs to
+func (t *TCPTransport) stop(done chan bool) {
+	t.Lock()
+	defer t.Unlock()
+
+	if t.done == done {
+		t.doStop()
+	}
+}
+
+// doStop ...
+func (t *TCPTransport) doStop() {
 	if !t.isRunning {
-		return t
+		return
 	}
 
 	if t.listener != nil {
@@ -285,11 +341,9 @@ func (t *TCPTransport) Stop() Transport {
 		t.listener = nil
 	}
 
-	close(t.next)
+	close(t.done)
 
 	t.dropConnections()
 
 	t.isRunning = false
-
-	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index d1b5369..0e11e2f 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -99,6 +99,7 @@ type UDSTransport struct {
 	forServer   bool
 	connections []TransportConnection
 	next        chan TransportConnection
+	done        chan bool
 	// for server
 	listener net.Listener
 	// for client
@@ -136,23 +137,35 @@ func (uds *UDSTransport) parseOptions() {
 func (uds *UDSTransport) doInit() {
 	uds.connections = make([]TransportConnection, 0)
 	uds.next = make(chan TransportConnection, 16)
+	uds.done = make(chan bool)
 }
 
 // saveConnections ...
-func (uds *UDSTransport) saveConnection(tc TransportConnection) {
-	if tc == nil {
-		return
-	}
-
+// returns false if the transport was stopped, or stopped and run again
+func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan bool) bool {
 	uds.Lock()
 	defer uds.Unlock()
 
-	for _, c := range uds.connections {
-		if c == tc {
-			return
-		}
+	if !uds.isRunning || uds.done != done {
+		return false
 	}
+
 	uds.connections = append(uds.connections, tc)
+	return true
+}
+
+// offer hands the new connection over to NextConnection
+func (uds *UDSTransport) offer(tc TransportConnection, next chan TransportConnection, done chan bool) {
+	if !uds.saveConnection(tc, done) {
+		tc.Close()
+		return
+	}
+
+	select {
+	case next <- tc:
+	case <-done:
+		// stopped, the connection was closed
+	}
 }
 
 // dropConnections ...
@@ -163,7 +176,15 @@ func (uds *UDSTransport) dropConnections() {
 }
 
 // accept ...
-func (uds *UDSTransport) accept() {
+func (uds *UDSTransport) accept(next chan TransportConnection, done chan bool) {
+	uds.Lock()
+
+	if !uds.isRunning || uds.done != done {
+		// was stopped
+		uds.Unlock()
+		return
+	}
+
 	os.Remove(uds.filename)
 
 	listener, err := net.Listen("unix", uds.filename)
@@ -171,47 +192,52 @@ func (uds *UDSTransport) accept() {
 		log.Fatal(err)
 	}
 
-	defer os.Remove(uds.filename)
-
 	uds.listener = listener
 
+	uds.Unlock()
+
 	fmt.Println("Wait client connection ...")
 
 	for {
-		next, err := uds.listener.Accept()
+		connection, err := listener.Accept()
 		if err != nil {
 			break
 		}
 
-		uds.next <- NewUDSTransportConnection(
-			next.RemoteAddr().String(),
-			next)
+		uds.offer(NewUDSTransportConnection(
+			connection.RemoteAddr().String(),
+			connection), next, done)
 	}
 
-	uds.Stop()
+	uds.stop(done)
 }
 
 // connect ...
-func (uds *UDSTransport) connect() {
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan bool) {
 	fmt.Println("Dial server ...")
 
 	for i := 0; i < uds.maxRetryCount; i++ {
 		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
 
 		if connection != nil && err == nil {
-			uds.next <- NewUDSTransportConnection(
+			uds.offer(NewUDSTransportConnection(
 				connection.RemoteAddr().String(),
-				connection)
+				connection), next, done)
 			return
 		}
 
 		fmt.Println(err, "retry", i+1)
 
-		time.Sleep(time.Second * time.Duration(uds.retryIntervalInSecond))
+		select {
+		case <-done:
+			// was stopped
+			return
+		case <-time.After(time.Second * time.Duration(uds.retryIntervalInSecond)):
+		}
 	}
 
 	fmt.Println("Timeout to connect server")
-	uds.Stop()
+	uds.stop(done)
 }
 
 // ForServer ...
@@ -252,9 +278,16 @@ func (uds *UDSTransport) GetAddress() string {
 
 // NextConnection ...
 func (uds *UDSTransport) NextConnection() TransportConnection {
-	next := <-uds.next
-	uds.saveConnection(next)
-	return next
+	uds.Lock()
+	next, done := uds.next, uds.done
+	uds.Unlock()
+
+	select {
+	case connection := <-next:
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Run ...
@@ -272,9 +305,9 @@ func (uds *UDSTransport) Run() Transport {
 	uds.doInit()
 
 	if uds.forServer {
-		go uds.accept()
+		go uds.accept(uds.next, uds.done)
 	} else {
-		go uds.connect()
+		go uds.connect(uds.next, uds.done)
 	}
 	return uds
 }
@@ -284,8 +317,25 @@ func (uds *UDSTransport) Stop() Transport {
 	uds.Lock()
 	defer uds.Unlock()
 
+	uds.doStop()
+
+	return uds
+}
+
+// stop stops the transport if it is still in the run that done belongs to
+func (uds *UDSTransport) stop(done chan bool) {
+	uds.Lock()
+	defer uds.Unlock()
+
+	if uds.done == done {
+		uds.doStop()
+	}
+}
+
+// doStop ...
+func (uds *UDSTransport) doStop() {
 	if !uds.isRunning {
-		return uds
+		return
 	}
 
 	if uds.listener != nil {
@@ -293,11 +343,9 @@ func (uds *UDSTransport) Stop() Transport {
 		uds.listener = nil
 	}
 
-	close(uds.next)
+	close(uds.done)
 
 	uds.dropConnections()
 
 	uds.isRunning = false
-
-	return uds
 }
-- 
2.43.0


From 5db7e7dc5403cbbda90906d49b99c53a75911cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 17/39] fix: the closed state of TCP and unix connections is
 shared between routines

---
 tran_tcp.go  | 13 +++++++------
 tran_unix.go | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index b0282c7..9e39ba4 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -18,7 +19,7 @@ import (
 type TCPTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewTCPTransportConnection ...
@@ -26,7 +27,7 @@ func NewTCPTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &TCPTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -37,7 +38,7 @@ func (c *TCPTransportConnection) GetName() string {
 
 // Read ...
 func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -54,7 +55,7 @@ func (c *TCPTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *TCPTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -79,13 +80,13 @@ func (c *TCPTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *TCPTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *TCPTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) == 1
 }
 
 // TCPTransport ...
diff --git a/tran_unix.go b/tran_unix.go
index 0e11e2f..611baa7 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -12,6 +12,7 @@ import (
 	"net"
 	"os"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -19,7 +20,7 @@ import (
 type UDSTransportConnection struct {
 	name   string
 	conn   net.Conn
-	closed bool
+	closed int32
 }
 
 // NewUDSTransportConnection ...
@@ -27,7 +28,7 @@ func NewUDSTransportConnection(name string, conn net.Conn) TransportConnection {
 	return &UDSTransportConnection{
 		name:   name,
 		conn:   conn,
-		closed: false,
+		closed: 0,
 	}
 }
 
@@ -38,7 +39,7 @@ func (c *UDSTransportConnection) GetName() string {
 
 // Read ...
 func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("read failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -55,7 +56,7 @@ func (c *UDSTransportConnection) Read(p []byte) (n int, err error) {
 
 // Write ...
 func (c *UDSTransportConnection) Write(p []byte) (n int, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("write failed as connection", c.name, " is closed")
 		return 0, nil
 	}
@@ -80,13 +81,13 @@ func (c *UDSTransportConnection) SetReference(p interface{}) error {
 
 // Close ...
 func (c *UDSTransportConnection) Close() {
-	c.closed = true
+	atomic.StoreInt32(&c.closed, 1)
 	c.conn.Close()
 }
 
 // Closed ...
 func (c *UDSTransportConnection) Closed() bool {
-	return c.closed
+	return atomic.LoadInt32(&c.closed) == 1
 }
 
 // UDSTransport ...
-- 
2.43.0


From 47caf09743a3a0b0078ea6c769805dcceae2b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 18/39] fix: ReferenceTransport can be stopped

It never noted that it was running, so that Stop did nothing: the connection
stayed open and kept delivering, and Run could be repeated. Closing the
connection now wakes up its routines instead of leaving them blocked, and the
shared channels are no longer closed under a sender.
---
 tran_reference.go | 85 +++++++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index e1ebfe2..6f7ed23 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -48,19 +48,12 @@ func newReferenceChannel(size int) *referenceChannel {
 	}
 }
 
-// deleteReferenceChannel ...
-func deleteReferenceChannel(smc *referenceChannel) {
-	if smc != nil {
-		close(smc.serverTxClientRx)
-		close(smc.serverRxClientTx)
-	}
-}
-
 // ReferenceTransportConnection ...
 type ReferenceTransportConnection struct {
 	name      string
 	forServer bool
-	closed    bool
+	closeOnce sync.Once
+	closed    chan bool
 	channel   *referenceChannel
 }
 
@@ -73,7 +66,7 @@ func NewReferenceTransportConnection(
 	return &ReferenceTransportConnection{
 		name:      name,
 		forServer: forServer,
-		closed:    false,
+		closed:    make(chan bool),
 		channel:   channel,
 	}
 }
@@ -100,25 +93,27 @@ func (c *ReferenceTransportConnection) UseReference() bool {
 
 // GetReference ...
 func (c *ReferenceTransportConnection) GetReference() (p interface{}, err error) {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("GetReference failed as connection is closed")
 		return nil, errors.New("SetReference: connection is closed")
 	}
 
-	var data interface{}
-
+	rx := c.channel.serverTxClientRx
 	if c.forServer {
-		data = <-c.channel.serverRxClientTx
-	} else {
-		data = <-c.channel.serverTxClientRx
+		rx = c.channel.serverRxClientTx
 	}
 
-	return data, nil
+	select {
+	case data := <-rx:
+		return data, nil
+	case <-c.closed:
+		return nil, errors.New("GetReference: connection is closed")
+	}
 }
 
 // SetReference ...
 func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
-	if c.closed {
+	if c.Closed() {
 		fmt.Println("SetReference failed as connection is closed")
 		return errors.New("SetReference: connection is closed")
 	}
@@ -127,23 +122,32 @@ func (c *ReferenceTransportConnection) SetReference(p interface{}) error {
 		return errors.New("SetReference: null input")
 	}
 
+	tx := c.channel.serverRxClientTx
 	if c.forServer {
-		c.channel.serverTxClientRx <- p
-	} else {
-		c.channel.serverRxClientTx <- p
+		tx = c.channel.serverTxClientRx
 	}
 
-	return nil
+	select {
+	case tx <- p:
+		return nil
+	case <-c.closed:
+		return errors.New("SetReference: connection is closed")
+	}
 }
 
 // Close ...
 func (c *ReferenceTransportConnection) Close() {
-	c.closed = true
+	c.closeOnce.Do(func() { close(c.closed) })
 }
 
 // Closed ...
 func (c *ReferenceTransportConnection) Closed() bool {
-	return c.closed
+	select {
+	case <-c.closed:
+		return true
+	default:
+		return false
+	}
 }
 
 // ReferenceTransport ...
@@ -156,6 +160,7 @@ type ReferenceTransport struct {
 	forServer  bool
 	connection TransportConnection
 	next       chan TransportConnection
+	done       chan bool
 	queueSize  int
 }
 
@@ -219,9 +224,16 @@ func (sm *ReferenceTransport) GetAddress() string {
 
 // NextConnection ...
 func (sm *ReferenceTransport) NextConnection() TransportConnection {
-	next := <-sm.next
-	sm.connection = next
-	return sm.connection
+	sm.Lock()
+	done := sm.done
+	sm.Unlock()
+
+	select {
+	case connection := <-sm.next:
+		return connection
+	case <-done:
+		return nil
+	}
 }
 
 // Two Transports(Client side and Server side) should use the same
@@ -239,8 +251,12 @@ func (sm *ReferenceTransport) Run() Transport {
 		return sm
 	}
 
+	sm.isRunning = true
+
 	sm.parseOptions()
 
+	sm.done = make(chan bool)
+
 	mutex.Lock()
 
 	// check if some Transport have created
@@ -253,7 +269,9 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	ch.refCount++
 
-	sm.next <- NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+	sm.connection = NewReferenceTransportConnection(sm.name, sm.forServer, ch)
+
+	sm.next <- sm.connection
 
 	mutex.Unlock()
 
@@ -269,8 +287,18 @@ func (sm *ReferenceTransport) Stop() Transport {
 		return sm
 	}
 
+	sm.isRunning = false
+
+	close(sm.done)
+
 	sm.connection.Close()
 
+	// the connection may be not taken over yet
+	select {
+	case <-sm.next:
+	default:
+	}
+
 	mutex.Lock()
 
 	ch, ok := chans[sm.address]
@@ -279,7 +307,6 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 		if ch.refCount == 0 {
 			delete(chans, sm.address)
-			deleteReferenceChannel(ch)
 		}
 	}
 
-- 
2.43.0


From 887415098e7620cf41de9010272442800b8c0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:10 +0000
Subject: [PATCH 19/39] fix: Heartbeat and StatCounter no longer close
 reference connections

Their own messages are buffers, which a reference connection cannot carry, so
that the first one made LowerDeck close the connection.
---
 proc_heartbeat.go    | 5 +++++
 proc_stat_counter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 3b9a55d..262b797 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -141,6 +141,11 @@ func (hb *Heartbeat) OnEvent(event Event) {
 		interval := hb.intervalInSecond
 		connection := event.Data.(TransportConnection)
 
+		// there is no heartbeat on a connection that carries references
+		if connection.UseReference() {
+			return
+		}
+
 		hb.updateMonitor(connection)
 
 		go func() {
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 6cb5643..0483f18 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -153,6 +153,11 @@ func (sc *StatCounter) OnEvent(event Event) {
 
 		connection := event.Data.(TransportConnection)
 
+		// there is no collecting on a connection that carries references
+		if connection.UseReference() {
+			return
+		}
+
 		go func() {
 			for {
 				if connection.Closed() {
-- 
2.43.0


From d90362ea21ea836048640932ff5dedb81c3ac6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 20/39] fix: StatCounter, Filter and Forwarder count correctly
 with several routines

---
 proc_filter.go       | 6 ++++--
 proc_forwarder.go    | 6 ++++--
 proc_stat_counter.go | 9 +++++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/proc_filter.go b/proc_filter.go
index 486fdcb..8b975d1 100644
--- a/proc_filter.go
+++ b/proc_filter.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync/atomic"
+
 type FilterFn func(context Context, toUpper bool) bool
 
 // Filter ...
@@ -42,7 +44,7 @@ func (filter *Filter) doFilter(context Context, toUpper bool) bool {
 func (filter *Filter) OnUpperData(context Context) {
 	if filter.enable {
 		if !filter.doFilter(context, false) {
-			filter.txCounter++
+			atomic.AddUint64(&filter.txCounter, 1)
 			return
 		}
 	}
@@ -54,7 +56,7 @@ func (filter *Filter) OnUpperData(context Context) {
 func (filter *Filter) OnLowerData(context Context) {
 	if filter.enable {
 		if !filter.doFilter(context, true) {
-			filter.rxCounter++
+			atomic.AddUint64(&filter.rxCounter, 1)
 			return
 		}
 	}
diff --git a/proc_forwarder.go b/proc_forwarder.go
index b68ac3d..48ad768 100644
--- a/proc_forwarder.go
+++ b/proc_forwarder.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync/atomic"
+
 type ForwardFn func(context Context, toUpper bool) bool
 
 // Forwarder ...
@@ -42,7 +44,7 @@ func (fwd *Forwarder) doForward(context Context, toUpper bool) bool {
 func (fwd *Forwarder) OnUpperData(context Context) {
 	if fwd.enable {
 		if fwd.doForward(context, false) {
-			fwd.txCounter++
+			atomic.AddUint64(&fwd.txCounter, 1)
 			return
 		}
 	}
@@ -54,7 +56,7 @@ func (fwd *Forwarder) OnUpperData(context Context) {
 func (fwd *Forwarder) OnLowerData(context Context) {
 	if fwd.enable {
 		if fwd.doForward(context, true) {
-			fwd.rxCounter++
+			atomic.AddUint64(&fwd.rxCounter, 1)
 			return
 		}
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 0483f18..2991764 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -6,6 +6,7 @@ package ustack
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 )
 
@@ -52,7 +53,7 @@ func (sc *StatCounter) OnUpperData(context Context) {
 	}
 
 	if sc.enable {
-		sc.txCounter++
+		atomic.AddUint64(&sc.txCounter, 1)
 		// fmt.Println("StatCounter: txCounter:", sc.txCounter)
 	}
 
@@ -83,8 +84,8 @@ func (sc *StatCounter) response(context Context) {
 
 	ub.WriteHeadByte(StatCounterSelfMessageResTag)
 
-	ub.WriteU64BE(sc.txCounter)
-	ub.WriteU64BE(sc.rxCounter)
+	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))
+	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))
 
 	ub.Write([]byte(sc.ustack.GetName()))
 
@@ -134,7 +135,7 @@ func (sc *StatCounter) OnLowerData(context Context) {
 			sc.show(context)
 			return
 		} else {
-			sc.rxCounter++
+			atomic.AddUint64(&sc.rxCounter, 1)
 			// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)
 		}
 	}
-- 
2.43.0


From 0b1ecd1ffb03e018dbbc740b9587210271f88de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 21/39] fix: Heartbeat does not block the received data while
 HeartbeatLost is handled

---
 proc_heartbeat.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 262b797..0235169 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -58,22 +58,26 @@ func (hb *Heartbeat) deleteMonitor(connection TransportConnection) {
 
 // deleteMonitor ...
 func (hb *Heartbeat) check() {
-	hb.mutex.Lock()
-	defer hb.mutex.Unlock()
+	var losts []TransportConnection
 
-	if len(hb.monitors) == 0 {
-		return
-	}
+	hb.mutex.Lock()
 
 	for connection, lastTime := range hb.monitors {
 		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
 			continue
 		}
 
-		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
-
 		delete(hb.monitors, connection)
 
+		losts = append(losts, connection)
+	}
+
+	hb.mutex.Unlock()
+
+	// call out without the lock, a listener may wait for received data
+	for _, connection := range losts {
+		fmt.Println("Heartbeat: connection", connection.GetName(), "lost")
+
 		if hb.closeOnLost {
 			connection.Close()
 		}
-- 
2.43.0


From 99681f407b668c814931f1ba4d2e5ae61a6047e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 22/39] fix: Heartbeat does not report a connection lost that
 is already closed

---
 proc_heartbeat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 0235169..402797f 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -69,6 +69,11 @@ func (hb *Heartbeat) check() {
 
 		delete(hb.monitors, connection)
 
+		// was closed meanwhile, there is nothing to lose
+		if connection.Closed() {
+			continue
+		}
+
 		losts = append(losts, connection)
 	}
 
-- 
2.43.0


From 21ba5a5710c68ca6e1cd8dd0afddac8c307713e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:48 +0000
Subject: [PATCH 23/39] fix: changing the data listener of an endpoint neither
 loses nor reorders data

SetDataListener called twice could start two receiving routines, which called
the listener concurrently and out of order, and removing the listener made the
routine swallow the next data.
---
 endp_default.go | 57 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index 67ca2aa..cc72148 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -4,6 +4,8 @@
 
 package ustack
 
+import "sync"
+
 // DefaultEndPointData ...
 type DefaultEndPointData struct {
 	connection            TransportConnection
@@ -73,21 +75,36 @@ type DefaultEndPoint struct {
 	session       int
 	txChannel     chan EndPointData
 	rxChannel     chan EndPointData
+	mutex         sync.Mutex // protects the listeners and stopReceive
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
-	inAutoReceive bool
+	stopReceive   chan bool
 }
 
 // autoReceive ...
-func (ep *DefaultEndPoint) autoReceive() {
-	if ep.dataListener != nil {
-		ep.inAutoReceive = true
-		for epd := range ep.rxChannel {
-			if ep.dataListener == nil {
-				ep.inAutoReceive = false
+func (ep *DefaultEndPoint) autoReceive(stop chan bool, listener func(EndPoint, EndPointData)) {
+	for {
+		// do not take data if stopped
+		select {
+		case <-stop:
+			return
+		default:
+		}
+
+		select {
+		case <-stop:
+			return
+		case epd, ok := <-ep.rxChannel:
+			if !ok {
 				return
 			}
-			ep.dataListener(ep, epd)
+			ep.mutex.Lock()
+			if ep.dataListener != nil {
+				listener = ep.dataListener
+			}
+			ep.mutex.Unlock()
+
+			listener(ep, epd)
 		}
 	}
 }
@@ -101,21 +118,31 @@ func NewEndPoint(name string, session int) EndPoint {
 		rxChannel:     make(chan EndPointData, 512),
 		eventListener: nil,
 		dataListener:  nil,
-		inAutoReceive: false,
+		stopReceive:   nil,
 	}
 }
 
 // SetEventListener ...
 func (ep *DefaultEndPoint) SetEventListener(listener func(EndPoint, Event)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
 	ep.eventListener = listener
 	return ep
 }
 
 // SetDataListener ...
 func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)) EndPoint {
+	ep.mutex.Lock()
+	defer ep.mutex.Unlock()
+
 	ep.dataListener = listener
-	if !ep.inAutoReceive {
-		go ep.autoReceive()
+	if listener != nil && ep.stopReceive == nil {
+		ep.stopReceive = make(chan bool)
+		go ep.autoReceive(ep.stopReceive, listener)
+	} else if listener == nil && ep.stopReceive != nil {
+		close(ep.stopReceive)
+		ep.stopReceive = nil
 	}
 	return ep
 }
@@ -154,7 +181,11 @@ func (ep *DefaultEndPoint) GetRxChannel() chan EndPointData {
 
 // OnEvent ...
 func (ep *DefaultEndPoint) OnEvent(event Event) {
-	if ep.eventListener != nil {
-		ep.eventListener(ep, event)
+	ep.mutex.Lock()
+	listener := ep.eventListener
+	ep.mutex.Unlock()
+
+	if listener != nil {
+		listener(ep, event)
 	}
 }
-- 
2.43.0


From 8d7adb5ba4b79156d005ddeaa2132105ba2761d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:48 +0000
Subject: [PATCH 24/39] fix: setters of FeatBase and ProcBase return the object
 itself

where pointed to the local copy of the constructor, so that a feature that was
named in a call chain was another one than the one that had been configured.
---
 feat_base.go | 1 +
 proc_base.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/feat_base.go b/feat_base.go
index 14bafe3..524d8a0 100644
--- a/feat_base.go
+++ b/feat_base.go
@@ -26,6 +26,7 @@ func NewFeatBaseInstance(name string) FeatBase {
 // NewFeatBase return a new instance that meets for Feature interface
 func NewFeatBase() Feature {
 	base := NewFeatBaseInstance("FeatBase")
+	base.where = &base
 	return &base
 }
 
diff --git a/proc_base.go b/proc_base.go
index 6c71649..c6943a7 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -35,7 +35,7 @@ func NewProcBaseInstance(name string) ProcBase {
 // NewProcBase return a new instance that meets for DataProcessor interface
 func NewProcBase() DataProcessor {
 	base := NewProcBaseInstance("ProcBase")
-	return &base
+	return base.SetWhere(&base)
 }
 
 // SetWhere where the base is embedded in
-- 
2.43.0


From 8bfc856a19179eb67636f694407cc86b99e8a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:48 +0000
Subject: [PATCH 25/39] fix: GOBCodec and GenericCodec do not hang on truncated
 data

An empty UBuf reads as 0 bytes without error, which makes a decoder that waits
for more data loop forever. Give it a reader that ends with EOF.
---
 proc_codec_generic.go | 2 +-
 proc_codec_gob.go     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc_codec_generic.go b/proc_codec_generic.go
index a7e45e2..1d473c4 100644
--- a/proc_codec_generic.go
+++ b/proc_codec_generic.go
@@ -83,7 +83,7 @@ func (gc *GenericCodec) OnLowerData(context Context) {
 			return
 		}
 
-		message, err := gc.decoder(ub)
+		message, err := gc.decoder(io.LimitReader(ub, int64(ub.ReadableLength())))
 		if err != nil {
 			fmt.Println("GenericCodec: encode error:", err)
 			return
diff --git a/proc_codec_gob.go b/proc_codec_gob.go
index f344732..56b29a5 100644
--- a/proc_codec_gob.go
+++ b/proc_codec_gob.go
@@ -7,6 +7,7 @@ package ustack
 import (
 	"encoding/gob"
 	"fmt"
+	"io"
 	"reflect"
 )
 
@@ -58,7 +59,7 @@ func (g *GOBCodec) OnLowerData(context Context) {
 		}
 
 		objectItf := reflect.New(g.objectType).Interface()
-		err := gob.NewDecoder(ub).Decode(objectItf)
+		err := gob.NewDecoder(io.LimitReader(ub, int64(ub.ReadableLength()))).Decode(objectItf)
 		if err != nil {
 			fmt.Println("GOBCodec: gob encode error:", err)
 			return
-- 
2.43.0


From 9a7a3e23cbe094c3661cb3888056e64906e4dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 26/39] fix: data without connection is dropped by LowerDeck
 instead of crashing a processor

---
 proc_base.go          | 6 ++++++
 proc_frame_decoder.go | 4 ++--
 proc_heartbeat.go     | 4 ++--
 proc_load_balancer.go | 4 ++--
 proc_stat_counter.go  | 4 ++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/proc_base.go b/proc_base.go
index c6943a7..9721d93 100644
--- a/proc_base.go
+++ b/proc_base.go
@@ -123,3 +123,9 @@ func (base *ProcBase) OnEvent(event Event) {
 func (base *ProcBase) Run() DataProcessor {
 	return base.where
 }
+
+// useReference returns true if the data is for or from a reference connection
+func useReference(context Context) bool {
+	connection := context.GetConnection()
+	return connection != nil && connection.UseReference()
+}
diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index b52ec11..496d4c1 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -37,7 +37,7 @@ func (frm *FrameDecoder) GetOverhead() int {
 
 // OnUpperData ...
 func (frm *FrameDecoder) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.lower.OnUpperData(context)
 		return
 	}
@@ -217,7 +217,7 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf) {
 
 // OnLowerData ...
 func (frm *FrameDecoder) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		frm.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_heartbeat.go b/proc_heartbeat.go
index 402797f..c028674 100644
--- a/proc_heartbeat.go
+++ b/proc_heartbeat.go
@@ -102,7 +102,7 @@ func (hb *Heartbeat) GetOverhead() int {
 
 // OnUpperData ...
 func (hb *Heartbeat) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.lower.OnUpperData(context)
 		return
 	}
@@ -119,7 +119,7 @@ func (hb *Heartbeat) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (hb *Heartbeat) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		hb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_load_balancer.go b/proc_load_balancer.go
index cad6075..5d62588 100644
--- a/proc_load_balancer.go
+++ b/proc_load_balancer.go
@@ -37,7 +37,7 @@ func (lb *LoadBalancer) GetOverhead() int {
 
 // OnUpperData ...
 func (lb *LoadBalancer) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.lower.OnUpperData(context)
 		return
 	}
@@ -59,7 +59,7 @@ func (lb *LoadBalancer) OnUpperData(context Context) {
 
 // OnLowerData ...
 func (lb *LoadBalancer) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		lb.upper.OnLowerData(context)
 		return
 	}
diff --git a/proc_stat_counter.go b/proc_stat_counter.go
index 2991764..eaf20bb 100644
--- a/proc_stat_counter.go
+++ b/proc_stat_counter.go
@@ -42,7 +42,7 @@ func (hb *StatCounter) GetOverhead() int {
 
 // OnUpperData ...
 func (sc *StatCounter) OnUpperData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.lower.OnUpperData(context)
 		return
 	}
@@ -108,7 +108,7 @@ func (sc *StatCounter) show(context Context) {
 
 // OnLowerData ...
 func (sc *StatCounter) OnLowerData(context Context) {
-	if context.GetConnection().UseReference() {
+	if useReference(context) {
 		sc.upper.OnLowerData(context)
 		return
 	}
-- 
2.43.0


From c20c683c4fb72552acfbe4bebb5141cb7623782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:52 +0000
Subject: [PATCH 27/39] fix: UBuf copy-on-write releases the shared data after
 it is copied

---
 ubuf.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ubuf.go b/ubuf.go
index 50d420a..432dbef 100644
--- a/ubuf.go
+++ b/ubuf.go
@@ -175,9 +175,6 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 
 	// buffer data is referenced by some snapshot(s)
 
-	// decrease the count
-	atomic.AddInt32(&ub.data.refCount, -1)
-
 	// make buffer data copy
 	data := &uBufData{
 		refCount: 1,
@@ -187,6 +184,10 @@ func (ub *UBuf) resolveCopyOnWriteIfNeed() {
 	fmt.Println("make COW")
 	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])
 
+	// decrease the count after the copy is done, from now on
+	// the last one that references the data may modify it
+	atomic.AddInt32(&ub.data.refCount, -1)
+
 	// update
 	ub.data = data
 }
-- 
2.43.0


From 65941e69b9ff2036bfbde8895242dc2ec238f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 28/39] fix: deleting an endpoint releases a connection that is
 blocked on its full channel

---
 proc_upperdeck.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index 89348da..e1cf92e 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -86,16 +86,16 @@ func (ud *UpperDeck) deleteEndpoint(ep EndPoint) {
 	}
 }
 
-func (ud *UpperDeck) findEndPoint(session int) EndPoint {
+func (ud *UpperDeck) findEndPoint(session int) (EndPoint, chan bool) {
 	ud.Lock()
 	defer ud.Unlock()
 
-	for ep := range ud.endpoints {
+	for ep, stopchan := range ud.endpoints {
 		if ep.GetSession() == session {
-			return ep
+			return ep, stopchan
 		}
 	}
-	return nil
+	return nil, nil
 }
 
 // NewUpperDeck returns a new instance
@@ -117,11 +117,18 @@ func (ud *UpperDeck) OnLowerData(context Context) {
 	// the default is 0 if seesion is not enabled
 	session, _ := OptionParseInt(context.GetOption("session"), 0)
 
-	ep := ud.findEndPoint(session)
+	ep, stopchan := ud.findEndPoint(session)
 	if ep != nil {
-		ep.GetRxChannel() <- NewEndPointData().
+		epd := NewEndPointData().
 			SetConnection(context.GetConnection()).
 			SetData(message)
+
+		select {
+		case ep.GetRxChannel() <- epd:
+		case <-stopchan:
+			// the endpoint was deleted while its channel was full,
+			// nobody may receive from it any more
+		}
 	}
 }
 
-- 
2.43.0


From 27ffd6c786638ee5ba4964179032e7e4905bab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:38 +0000
Subject: [PATCH 29/39] fix: UpperDeck routine of a deleted endpoint does not
 take data from the endpoint added again

---
 proc_upperdeck.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index e1cf92e..3ecc8a5 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -47,6 +47,14 @@ func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
 	// read data from endpoint and pass it to lower
 	go func() {
 		for {
+			// do not take data if stopped while sending, the endpoint
+			// may be added again
+			select {
+			case <-stopchan:
+				return
+			default:
+			}
+
 			select {
 			case <-stopchan:
 				return
-- 
2.43.0


From bd1ebfc31f9ad6b01c8a1850aad462e0259a3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 30/39] fix: endpoint data keeps its order when the listener is
 removed and set again

---
 endp_default.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/endp_default.go b/endp_default.go
index cc72148..f1ba5ea 100644
--- a/endp_default.go
+++ b/endp_default.go
@@ -75,14 +75,22 @@ type DefaultEndPoint struct {
 	session       int
 	txChannel     chan EndPointData
 	rxChannel     chan EndPointData
-	mutex         sync.Mutex // protects the listeners and stopReceive
+	mutex         sync.Mutex // protects the listeners, stopReceive and receiveDone
 	eventListener func(EndPoint, Event)
 	dataListener  func(EndPoint, EndPointData)
 	stopReceive   chan bool
+	receiveDone   chan bool
 }
 
 // autoReceive ...
-func (ep *DefaultEndPoint) autoReceive(stop chan bool, listener func(EndPoint, EndPointData)) {
+func (ep *DefaultEndPoint) autoReceive(previous, done, stop chan bool, listener func(EndPoint, EndPointData)) {
+	defer close(done)
+
+	// keep the order, the listener before may still handle its last data
+	if previous != nil {
+		<-previous
+	}
+
 	for {
 		// do not take data if stopped
 		select {
@@ -138,8 +146,10 @@ func (ep *DefaultEndPoint) SetDataListener(listener func(EndPoint, EndPointData)
 
 	ep.dataListener = listener
 	if listener != nil && ep.stopReceive == nil {
+		previous := ep.receiveDone
+		ep.receiveDone = make(chan bool)
 		ep.stopReceive = make(chan bool)
-		go ep.autoReceive(ep.stopReceive, listener)
+		go ep.autoReceive(previous, ep.receiveDone, ep.stopReceive, listener)
 	} else if listener == nil && ep.stopReceive != nil {
 		close(ep.stopReceive)
 		ep.stopReceive = nil
-- 
2.43.0


From 8c2d05b867e91546607e770f9c3f65bb63245fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:31 +0000
Subject: [PATCH 31/39] fix: socket transports forget the connections which
 ended

A listening TCP or UDS transport kept every connection it had ever
accepted until it was stopped, so a server that runs for ever grew with
each client that came and went.
---
 tran_tcp.go  | 10 +++++++++-
 tran_unix.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index 9e39ba4..3ad1b55 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -150,7 +150,15 @@ func (t *TCPTransport) saveConnection(tc TransportConnection, done chan bool) bo
 		return false
 	}
 
-	t.connections = append(t.connections, tc)
+	// forget the connections which ended, a server may run for ever
+	connections := make([]TransportConnection, 0, len(t.connections)+1)
+	for _, c := range t.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	t.connections = append(connections, tc)
 	return true
 }
 
diff --git a/tran_unix.go b/tran_unix.go
index 611baa7..b36cb02 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -151,7 +151,15 @@ func (uds *UDSTransport) saveConnection(tc TransportConnection, done chan bool)
 		return false
 	}
 
-	uds.connections = append(uds.connections, tc)
+	// forget the connections which ended, a server may run for ever
+	connections := make([]TransportConnection, 0, len(uds.connections)+1)
+	for _, c := range uds.connections {
+		if !c.Closed() {
+			connections = append(connections, c)
+		}
+	}
+
+	uds.connections = append(connections, tc)
 	return true
 }
 
-- 
2.43.0


From 00932912ea5d6fa44fb55d0242aa13183b8df3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:42 +0000
Subject: [PATCH 32/39] fix: the same endpoint or transport added or deleted
 twice at the same time

Two routines that added the same endpoint or transport both found it
missing, so it was announced and listed twice and an endpoint was served
by two routines; deleting it twice published the event twice, and adding
a transport while it was deleted left it listed but stopped. A listener
that did the same again from inside its callback never came to an end.
---
 ustack_default.go | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/ustack_default.go b/ustack_default.go
index 8e731db..42f5dad 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -80,13 +80,14 @@ func (c *DefaultUStackContext) GetMessage() interface{} {
 
 // DefaultUStack ...
 type DefaultUStack struct {
-	mutex      sync.Mutex // protects endpoints, transports and listeners
+	mutex      sync.Mutex // protects endpoints, transports, changing and listeners
 	name       string
 	mtu        int
 	options    map[string]interface{}
 	features   []Feature
 	endpoints  []EndPoint
 	transports []Transport
+	changing   map[interface{}]bool // endpoints and transports being added or deleted
 	upperDeck  DataProcessor
 	processors []DataProcessor
 	overhead   int
@@ -103,6 +104,7 @@ func NewUStack() UStack {
 		features:   nil,
 		endpoints:  nil,
 		transports: nil,
+		changing:   make(map[interface{}]bool),
 		upperDeck:  nil,
 		processors: nil,
 		overhead:   0,
@@ -195,8 +197,36 @@ func (u *DefaultUStack) GetFeatures() []Feature {
 	return u.features
 }
 
+// beginChange ...
+// returns false if the endpoint or transport is just being added or
+// deleted, by another routine or by the caller of the listener
+func (u *DefaultUStack) beginChange(object interface{}) bool {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	if u.changing[object] {
+		return false
+	}
+
+	u.changing[object] = true
+	return true
+}
+
+// endChange ...
+func (u *DefaultUStack) endChange(object interface{}) {
+	u.mutex.Lock()
+	defer u.mutex.Unlock()
+
+	delete(u.changing, object)
+}
+
 // AddEndPoint ...
 func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
+	if !u.beginChange(ep) {
+		return u
+	}
+	defer u.endChange(ep)
+
 	for _, endpoint := range u.GetEndPoint() {
 		if endpoint == ep {
 			// was added
@@ -219,6 +249,11 @@ func (u *DefaultUStack) AddEndPoint(ep EndPoint) UStack {
 
 // DeleteEndPoint ...
 func (u *DefaultUStack) DeleteEndPoint(ep EndPoint) UStack {
+	if !u.beginChange(ep) {
+		return u
+	}
+	defer u.endChange(ep)
+
 	for _, endpoint := range u.GetEndPoint() {
 		if endpoint != ep {
 			continue
@@ -275,6 +310,11 @@ func (u *DefaultUStack) GetMTU() int {
 
 // AddTransport ...
 func (u *DefaultUStack) AddTransport(tp Transport) UStack {
+	if !u.beginChange(tp) {
+		return u
+	}
+	defer u.endChange(tp)
+
 	for _, transport := range u.GetTransport() {
 		if transport == tp {
 			// was added
@@ -297,6 +337,11 @@ func (u *DefaultUStack) AddTransport(tp Transport) UStack {
 
 // DeleteTransport ...
 func (u *DefaultUStack) DeleteTransport(tp Transport) UStack {
+	if !u.beginChange(tp) {
+		return u
+	}
+	defer u.endChange(tp)
+
 	u.mutex.Lock()
 
 	for i, transport := range u.transports {
-- 
2.43.0


From 9682e6e49e4e55a49e370e4dc50818f6b283b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:12 +0000
Subject: [PATCH 33/39] fix: a frame decoder does not begin a new stream for a
 closed connection

---
 proc_frame_decoder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 496d4c1..87e8f45 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -55,13 +55,20 @@ func (frm *FrameDecoder) OnUpperData(context Context) {
 	frm.lower.OnUpperData(context)
 }
 
-// getCache returns the cache of the connection
+// getCache returns the cache of the connection, nil if the connection was closed
+// and its cache is released
 func (frm *FrameDecoder) getCache(connection TransportConnection) *UBuf {
 	frm.mutex.Lock()
 	defer frm.mutex.Unlock()
 
 	cache, ok := frm.caches[connection]
 	if !ok {
+		// a read may return after the close, nobody would release a new
+		// cache and the data may begin in the middle of a frame
+		if connection != nil && connection.Closed() {
+			return nil
+		}
+
 		cache = UBufAlloc(frm.cacheCapacity)
 		frm.caches[connection] = cache
 	}
@@ -229,6 +236,9 @@ func (frm *FrameDecoder) OnLowerData(context Context) {
 
 	if frm.enable {
 		cache := frm.getCache(context.GetConnection())
+		if cache == nil {
+			return
+		}
 
 		// handle current received data
 		for frm.handleCurrentData(context, cache, ub) {
-- 
2.43.0


From 805dcb0de8d62278b2aaba769a79700987fb27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:32 +0000
Subject: [PATCH 34/39] fix: only one of the endpoints of a session is accepted
 when several are added at the same time

---
 proc_upperdeck.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/proc_upperdeck.go b/proc_upperdeck.go
index 3ecc8a5..e7fc4c3 100644
--- a/proc_upperdeck.go
+++ b/proc_upperdeck.go
@@ -16,9 +16,6 @@ type UpperDeck struct {
 }
 
 func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
-	ud.Lock()
-	defer ud.Unlock()
-
 	for endpoint := range ud.endpoints {
 		if endpoint == ep || endpoint.GetSession() == ep.GetSession() {
 			return true
@@ -29,13 +26,14 @@ func (ud *UpperDeck) existsEndpoint(ep EndPoint) bool {
 
 // accpetEndpoint ...
 func (ud *UpperDeck) acceptEndpoint(ep EndPoint) {
+	// check and add at once, other endpoints may be added at the same time
+	ud.Lock()
+	defer ud.Unlock()
+
 	if ud.existsEndpoint(ep) {
 		return
 	}
 
-	ud.Lock()
-	defer ud.Unlock()
-
 	stopchan := make(chan bool, 1)
 	ud.endpoints[ep] = stopchan
 
-- 
2.43.0


From eab933adad8862201d82293f05f55fc23873b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:53 +0000
Subject: [PATCH 35/39] fix: stopping a reference transport releases the
 address it was run with

---
 tran_reference.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tran_reference.go b/tran_reference.go
index 6f7ed23..4e30bf5 100644
--- a/tran_reference.go
+++ b/tran_reference.go
@@ -156,6 +156,7 @@ type ReferenceTransport struct {
 	options map[string]interface{}
 	sync.Mutex
 	address    string
+	inUse      string // the address of the current run
 	isRunning  bool
 	forServer  bool
 	connection TransportConnection
@@ -257,14 +258,17 @@ func (sm *ReferenceTransport) Run() Transport {
 
 	sm.done = make(chan bool)
 
+	// the address may be changed for the next run meanwhile
+	sm.inUse = sm.address
+
 	mutex.Lock()
 
 	// check if some Transport have created
-	ch, ok := chans[sm.address]
+	ch, ok := chans[sm.inUse]
 	if !ok {
 		// not found, create new one
 		ch = newReferenceChannel(sm.queueSize)
-		chans[sm.address] = ch
+		chans[sm.inUse] = ch
 	}
 
 	ch.refCount++
@@ -301,12 +305,12 @@ func (sm *ReferenceTransport) Stop() Transport {
 
 	mutex.Lock()
 
-	ch, ok := chans[sm.address]
+	ch, ok := chans[sm.inUse]
 	if ok {
 		ch.refCount--
 
 		if ch.refCount == 0 {
-			delete(chans, sm.address)
+			delete(chans, sm.inUse)
 		}
 	}
 
-- 
2.43.0


From 2b5d54bb471e279fa15d70a42f5eecf90eb895b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:41 +0000
Subject: [PATCH 36/39] fix: a frame decoder above a loopback does not touch an
 unused cache

Several endpoints, or an endpoint and the heartbeat, that send on the same
connection call the frame decoder at the same time, each of them reset the
cache of the connection although it was not used: a data race.
---
 proc_frame_decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proc_frame_decoder.go b/proc_frame_decoder.go
index 87e8f45..f25d39b 100644
--- a/proc_frame_decoder.go
+++ b/proc_frame_decoder.go
@@ -171,7 +171,11 @@ func (frm *FrameDecoder) handleCachedData(context Context, cache *UBuf) {
 		cachedLength := cache.ReadableLength()
 
 		if cachedLength == 0 {
-			cache.Reset()
+			// do not touch a cache which was not used, a loopback below
+			// returns whole frames in the routines of all the senders
+			if cache.HeadWritableLength() > 0 {
+				cache.Reset()
+			}
 			return
 		}
 
-- 
2.43.0


From f8e14d5e8825e629b7da1a5649329d512d1ebfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 37/39] fix: a stopped client no longer uses the settings of
 the next run

---
 tran_tcp.go  | 11 ++++++-----
 tran_unix.go | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/tran_tcp.go b/tran_tcp.go
index 3ad1b55..da85b3c 100644
--- a/tran_tcp.go
+++ b/tran_tcp.go
@@ -219,11 +219,12 @@ func (t *TCPTransport) accept(next chan TransportConnection, done chan bool) {
 }
 
 // connect ...
-func (t *TCPTransport) connect(next chan TransportConnection, done chan bool) {
+// it is given the settings of its run, the next run may have other ones
+func (t *TCPTransport) connect(next chan TransportConnection, done chan bool, address string, maxRetryCount int, retryIntervalInSecond int) {
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < t.maxRetryCount; i++ {
-		connection, err := net.DialTimeout("tcp", t.address, time.Second)
+	for i := 0; i < maxRetryCount; i++ {
+		connection, err := net.DialTimeout("tcp", address, time.Second)
 
 		if connection != nil && err == nil {
 			t.offer(NewTCPTransportConnection(
@@ -238,7 +239,7 @@ func (t *TCPTransport) connect(next chan TransportConnection, done chan bool) {
 		case <-done:
 			// was stopped
 			return
-		case <-time.After(time.Second * time.Duration(t.retryIntervalInSecond)):
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
 		}
 	}
 
@@ -314,7 +315,7 @@ func (t *TCPTransport) Run() Transport {
 	if t.forServer {
 		go t.accept(t.next, t.done)
 	} else {
-		go t.connect(t.next, t.done)
+		go t.connect(t.next, t.done, t.address, t.maxRetryCount, t.retryIntervalInSecond)
 	}
 	return t
 }
diff --git a/tran_unix.go b/tran_unix.go
index b36cb02..6a0a3c9 100644
--- a/tran_unix.go
+++ b/tran_unix.go
@@ -222,11 +222,12 @@ func (uds *UDSTransport) accept(next chan TransportConnection, done chan bool) {
 }
 
 // connect ...
-func (uds *UDSTransport) connect(next chan TransportConnection, done chan bool) {
+// it is given the settings of its run, the next run may have other ones
+func (uds *UDSTransport) connect(next chan TransportConnection, done chan bool, filename string, maxRetryCount int, retryIntervalInSecond int) {
 	fmt.Println("Dial server ...")
 
-	for i := 0; i < uds.maxRetryCount; i++ {
-		connection, err := net.DialTimeout("unix", uds.filename, time.Second)
+	for i := 0; i < maxRetryCount; i++ {
+		connection, err := net.DialTimeout("unix", filename, time.Second)
 
 		if connection != nil && err == nil {
 			uds.offer(NewUDSTransportConnection(
@@ -241,7 +242,7 @@ func (uds *UDSTransport) connect(next chan TransportConnection, done chan bool)
 		case <-done:
 			// was stopped
 			return
-		case <-time.After(time.Second * time.Duration(uds.retryIntervalInSecond)):
+		case <-time.After(time.Second * time.Duration(retryIntervalInSecond)):
 		}
 	}
 
@@ -316,7 +317,7 @@ func (uds *UDSTransport) Run() Transport {
 	if uds.forServer {
 		go uds.accept(uds.next, uds.done)
 	} else {
-		go uds.connect(uds.next, uds.done)
+		go uds.connect(uds.next, uds.done, uds.filename, uds.maxRetryCount, uds.retryIntervalInSecond)
 	}
 	return uds
 }
-- 
2.43.0


From 77f58d54ab4d590fd9da6a75fc12ec2a6c647ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:39 +0000
Subject: [PATCH 38/39] fix: sending nothing over a reference transport does
 not close the connection

---
 proc_lowerdeck.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proc_lowerdeck.go b/proc_lowerdeck.go
index e28f4bf..bb00a52 100644
--- a/proc_lowerdeck.go
+++ b/proc_lowerdeck.go
@@ -127,7 +127,11 @@ func (ld *LowerDeck) OnUpperData(context Context) {
 	}
 
 	if connection.UseReference() {
-		err = connection.SetReference(context.GetMessage())
+		message := context.GetMessage()
+		if message == nil {
+			return
+		}
+		err = connection.SetReference(message)
 	} else {
 		ub := context.GetBuffer()
 		if ub == nil {
-- 
2.43.0


From bd8e2c5f11ca15f3c5926d7833e2df1f8e22e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:55 +0000
Subject: [PATCH 39/39] fix: a nil event listener of the stack is not called

---
 ustack_default.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustack_default.go b/ustack_default.go
index 42f5dad..395a76d 100644
--- a/ustack_default.go
+++ b/ustack_default.go
@@ -382,6 +382,11 @@ func (u *DefaultUStack) SetEventListener(listener func(Event)) UStack {
 	u.mutex.Lock()
 	defer u.mutex.Unlock()
 
+	// no listener, nothing to call
+	if listener == nil {
+		return u
+	}
+
 	u.listeners = append(u.listeners, listener)
 	return u
 }
-- 
2.43.0

