From bf30514b87b877807dcd87c7e4441fbe5277097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 01/44] fix: don't search for the signature beyond the end of
 the archive

With multiple volumes a read past the end returns io.ErrUnexpectedEOF, so
any archive not starting with the signature in the first volume, or too
short for the final chunk, was rejected.
---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..32b1c93 100644
--- a/reader.go
+++ b/reader.go
@@ -390,7 +390,8 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		offsets   []int64
 	)
 
-	offsets, err = findSignature(r, signature)
+	// Bound the search, not every io.ReaderAt returns io.EOF for a read past the end
+	offsets, err = findSignature(io.NewSectionReader(r, 0, size), signature)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 58f9e44d15fed03b7b1a819da7a591fe571d49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 02/44] fix: don't overwrite the AES IV when deriving a key

The salt is a slice of the coder properties with the IV directly following
it, so appending the password to it corrupted the IV for any later use of
the same coder.
---
 internal/aes7z/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..26535d7 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -7,6 +7,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	lru "github.com/hashicorp/golang-lru/v2"
@@ -54,7 +55,7 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	b := bytes.NewBuffer(slices.Clip(salt)) // Force a copy, salt is a slice of the coder properties
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From c0d95898192dbf2d706b862331c25c3cb3af90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 03/44] fix: support a delta distance of 256

The addition overflowed, leaving a distance of zero which looped forever.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From da9b90ff3349e75e956331c5143d51897a6478de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 04/44] fix: don't swallow EOF in the delta filter

A truncated stream returned no data and no error forever. Also filter any
bytes returned alongside an error.
---
 internal/delta/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9221652 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -44,7 +44,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.rc.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		return n, fmt.Errorf("delta: error reading: %w", err)
+		err = fmt.Errorf("delta: error reading: %w", err)
 	}
 
 	var (
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 849a012dd60a8ba0941bf39ea374f0c81defccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 05/44] fix: opening an empty file through fs.FS panicked

The reader for an empty file didn't implement fs.File.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 32b1c93..9ffb2b3 100644
--- a/reader.go
+++ b/reader.go
@@ -149,7 +149,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From 9e8d4164fdbe976a4b3b2b7900d6bb8c2746321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 06/44] fix: reading a closed file panicked

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 9ffb2b3..05058e8 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, iofs.ErrClosed
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From 1581c4369fc73c1ac7ff50d86a74e775dc9124bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 07/44] fix: report a stream that ends early as
 io.ErrUnexpectedEOF

A truncated stream looked like the normal end of a shorter file.
---
 struct.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index bb6ddca..6b875f9 100644
--- a/struct.go
+++ b/struct.go
@@ -108,7 +108,34 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 		}
 	}
 
-	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
+	return &limitReadCloser{cr, int64(f.size[coder])}, ok, nil //nolint:gosec
+}
+
+// limitReadCloser limits an io.ReadCloser to its expected size. It differs
+// from plumbing.LimitReadCloser by returning io.ErrUnexpectedEOF if there is
+// less data than that.
+type limitReadCloser struct {
+	io.ReadCloser
+	n int64
+}
+
+func (rc *limitReadCloser) Read(p []byte) (int, error) {
+	if rc.n <= 0 {
+		return 0, io.EOF
+	}
+
+	if int64(len(p)) > rc.n {
+		p = p[:rc.n]
+	}
+
+	n, err := rc.ReadCloser.Read(p)
+	rc.n -= int64(n)
+
+	if rc.n > 0 && errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 type folderReadCloser struct {
-- 
2.43.0


From 8f8806a6c11a8a591e980d9fa441f1d59cbc04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 08/44] fix: don't lose the last byte when it is returned along
 with io.EOF

A reader may return the final byte and io.EOF together, ReadByte then
dropped that byte, so BCJ2 over deflate came up short.
---
 internal/util/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..f927b2c 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -1,7 +1,10 @@
 // Package util implements various utility types and interfaces.
 package util
 
-import "io"
+import (
+	"errors"
+	"io"
+)
 
 // SizeReadSeekCloser is an io.Reader, io.Seeker, and io.Closer with a Size
 // method.
@@ -46,7 +49,7 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
+	if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
 		return 0, err //nolint:wrapcheck
 	}
 
-- 
2.43.0


From c72a382cd9074a5a2b41737421c249c281b88940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 09/44] fix: don't reuse a stream reader that returned an error

It was put back in the pool and used for the next file, or for further
reads of the same file, although the decompressors were left in an
undefined state.
---
 reader.go |  4 +++-
 struct.go | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 05058e8..0af0ac2 100644
--- a/reader.go
+++ b/reader.go
@@ -132,7 +132,9 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	frc, ok := fr.rc.(*folderReadCloser)
+
+	if offset == fr.rc.Size() || (ok && frc.err != nil) { // EOF reached, or unusable after an error
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
diff --git a/struct.go b/struct.go
index 6b875f9..261b2b5 100644
--- a/struct.go
+++ b/struct.go
@@ -144,6 +144,22 @@ type folderReadCloser struct {
 	wc            *plumbing.WriteCounter
 	size          int64
 	hasEncryption bool
+	err           error
+}
+
+// Read remembers the first error as the decompressors are in an undefined
+// state after it.
+func (rc *folderReadCloser) Read(p []byte) (int, error) {
+	if rc.err != nil {
+		return 0, rc.err
+	}
+
+	n, err := rc.ReadCloser.Read(p)
+	if err != nil && !errors.Is(err, io.EOF) {
+		rc.err = err
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 func (rc *folderReadCloser) Checksum() []byte {
-- 
2.43.0


From af41736a0a29f0a8108c873312e511110c2b713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 10/44] fix: keep reporting the cause when reading a packed
 stream fails

---
 struct.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 261b2b5..c3c7177 100644
--- a/struct.go
+++ b/struct.go
@@ -138,6 +138,32 @@ func (rc *limitReadCloser) Read(p []byte) (int, error) {
 	return n, err //nolint:wrapcheck
 }
 
+// packedReader reads a packed stream of n bytes. It returns
+// io.ErrUnexpectedEOF if the archive is too short to contain all of it, and
+// remembers the first error as some decompressors would otherwise carry on.
+type packedReader struct {
+	r   io.Reader
+	n   int64
+	err error
+}
+
+func (pr *packedReader) Read(p []byte) (int, error) {
+	if pr.err != nil {
+		return 0, pr.err
+	}
+
+	n, err := pr.r.Read(p)
+	pr.n -= int64(n)
+
+	if pr.n > 0 && errors.Is(err, io.EOF) {
+		err = io.ErrUnexpectedEOF
+	}
+
+	pr.err = err
+
+	return n, err //nolint:wrapcheck
+}
+
 type folderReadCloser struct {
 	io.ReadCloser
 	h             hash.Hash
@@ -315,7 +341,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
+		sr := io.NewSectionReader(r, si.folderOffset(folder)+offset, size)
+		in[input] = util.NopCloser(bufio.NewReader(&packedReader{r: sr, n: size}))
 		offset += size
 	}
 
-- 
2.43.0


From 3875370fee73d5a8b70ab54ed735084346e281fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 11/44] fix: don't return garbage when the source of a bzip2
 stream fails

---
 internal/bzip2/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/bzip2/reader.go b/internal/bzip2/reader.go
index 3e82498..f5194f2 100644
--- a/internal/bzip2/reader.go
+++ b/internal/bzip2/reader.go
@@ -39,7 +39,8 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("bzip2: error reading: %w", err)
+		// Anything decoded alongside an error is garbage
+		return 0, fmt.Errorf("bzip2: error reading: %w", err)
 	}
 
 	return n, err
-- 
2.43.0


From 2789445fa90c1e5c707d3f5e57e88f53befc70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 12/44] fix: don't ignore errors and corrupt data in ppmd
 streams

---
 internal/ppmd/reader.go | 48 +++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..0b01cb3 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -14,11 +14,39 @@ var (
 	errAlreadyClosed          = errors.New("ppmd: already closed")
 	errNeedOneReader          = errors.New("ppmd: need exactly one reader")
 	errInsufficientProperties = errors.New("ppmd: not enough properties")
+	errCorrupt                = errors.New("ppmd: corrupt data")
 )
 
+// errReader remembers any error from r as the decoder ignores some of them.
+type errReader struct {
+	r   io.Reader
+	err error
+}
+
+func (er *errReader) Read(p []byte) (int, error) {
+	n, err := er.r.Read(p)
+	if n == 0 && err != nil && !errors.Is(err, io.EOF) {
+		er.err = err
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
 type readCloser struct {
-	c io.Closer
-	r io.Reader
+	c  io.Closer
+	r  io.Reader
+	er *errReader
+}
+
+// read reads from the decoder which panics if the data is corrupt.
+func (rc *readCloser) read(p []byte) (n int, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			n, err = 0, errCorrupt
+		}
+	}()
+
+	return rc.r.Read(p) //nolint:wrapcheck
 }
 
 func (rc *readCloser) Close() error {
@@ -40,7 +68,12 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
+	n, err := rc.read(p)
+	if rc.er.err != nil {
+		// Anything decoded since is garbage
+		n, err = 0, rc.er.err
+	}
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("ppmd: error reading: %w", err)
 	}
@@ -61,13 +94,16 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+	er := &errReader{r: readers[0]}
+
+	pr, err := ppmd.NewH7zReader(er, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: &pr,
+		c:  readers[0],
+		r:  &pr,
+		er: er,
 	}, nil
 }
-- 
2.43.0


From 689f009d7f51b6341e8b83b3564da97e2fcf9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 13/44] fix: don't reuse a brotli reader with unread input

---
 internal/brotli/reader.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..6b6fa8b 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -16,6 +16,8 @@ import (
 type readCloser struct {
 	c io.Closer
 	r *brotli.Reader
+
+	n, size uint64
 }
 
 const (
@@ -41,16 +43,33 @@ type headerFrame struct {
 	UncompressedSize uint16 // * 64 KB
 }
 
+// drained returns if the reader has reached the end of its input. Resetting it
+// doesn't discard any input it has buffered so it can't be reused otherwise.
+func (rc *readCloser) drained() bool {
+	if rc.n != rc.size {
+		return false
+	}
+
+	_, err := rc.r.Read(make([]byte, 1))
+
+	return errors.Is(err, io.EOF)
+}
+
 func (rc *readCloser) Close() error {
 	if rc.c == nil || rc.r == nil {
 		return errAlreadyClosed
 	}
 
+	reusable := rc.drained()
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("brotli: error closing: %w", err)
 	}
 
-	brotliReaderPool.Put(rc.r)
+	if reusable {
+		brotliReaderPool.Put(rc.r)
+	}
+
 	rc.c, rc.r = nil, nil
 
 	return nil
@@ -62,6 +81,8 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+	rc.n += uint64(n) //nolint:gosec
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("brotli: error reading: %w", err)
 	}
@@ -70,7 +91,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 }
 
 // NewReader returns a new Brotli io.ReadCloser.
-func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
 		return nil, errNeedOneReader
 	}
@@ -107,7 +128,8 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	}
 
 	return &readCloser{
-		c: readers[0],
-		r: r,
+		c:    readers[0],
+		r:    r,
+		size: size,
 	}, nil
 }
-- 
2.43.0


From 4f176bb82bb8adaf316ab7619743d5f4f6dc617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 14/44] fix: close a reader that the pool doesn't keep

---
 internal/pool/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..9f3bffd 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,8 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		// There's already a reader for this offset so this one isn't needed
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From a6339bb189c187904fa74ced53ab7fe921f958f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 15/44] fix: close the stream reader if seeking fails, and only
 once

---
 reader.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/reader.go b/reader.go
index 0af0ac2..9587cf8 100644
--- a/reader.go
+++ b/reader.go
@@ -127,26 +127,28 @@ func (fr *fileReader) Close() error {
 		return nil
 	}
 
-	offset, err := fr.rc.Seek(0, io.SeekCurrent)
+	// Never close it, or add it to the pool, twice even if there is an error
+	rc := fr.rc
+	fr.rc = nil
+
+	offset, err := rc.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
+		return fmt.Errorf("sevenzip: error seeking current position: %w", errors.Join(err, rc.Close()))
 	}
 
-	frc, ok := fr.rc.(*folderReadCloser)
+	frc, ok := rc.(*folderReadCloser)
 
-	if offset == fr.rc.Size() || (ok && frc.err != nil) { // EOF reached, or unusable after an error
-		if err := fr.rc.Close(); err != nil {
+	if offset == rc.Size() || (ok && frc.err != nil) { // EOF reached, or unusable after an error
+		if err := rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
 	} else {
 		f := fr.f
-		if _, err := f.zip.pool[f.folder].Put(offset, fr.rc); err != nil {
+		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
 			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
 		}
 	}
 
-	fr.rc = nil
-
 	return nil
 }
 
@@ -183,6 +185,8 @@ func (f *File) Open() (io.ReadCloser, error) {
 			e.Encrypted = fr.hasEncryption
 		}
 
+		e.Err = errors.Join(e.Err, rc.Close())
+
 		return nil, e
 	}
 
-- 
2.43.0


From 64bc5aaa87ebd9edc305915fe899809da6fb5c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 16/44] fix: keep the encryption hint if setting the password
 fails

---
 struct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index c3c7177..5757f5d 100644
--- a/struct.go
+++ b/struct.go
@@ -375,14 +375,15 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
 
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From 41f9aab16adbb7a48d61b2d00990dca8f0c88e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 17/44] fix: close the stream readers already created if
 another can't be

---
 struct.go | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index 5757f5d..fd4e315 100644
--- a/struct.go
+++ b/struct.go
@@ -90,20 +90,36 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+// closeAll closes any readers that won't be used because of another error.
+func closeAll(readers []io.ReadCloser) {
+	for _, r := range readers {
+		if r != nil {
+			_ = r.Close()
+		}
+	}
+}
+
+// coderReader closes readers if it returns an error.
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
+		closeAll(readers)
+
 		return nil, false, errAlgorithm
 	}
 
 	cr, err := dcomp(f.coder[coder].properties, f.size[coder], readers)
 	if err != nil {
+		closeAll(readers)
+
 		return nil, false, err
 	}
 
 	crc, ok := cr.(CryptoReadCloser)
 	if ok {
 		if err = crc.Password(password); err != nil {
+			_ = cr.Close()
+
 			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", err)
 		}
 	}
@@ -327,11 +343,20 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 }
 
 //nolint:cyclop,funlen,lll
-func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (*folderReadCloser, uint32, bool, error) {
+func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (_ *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
 
+	// The outputs that are not (yet) the input of, and so closed by, another coder
+	unused := make([]io.ReadCloser, f.out)
+
+	defer func() {
+		if err != nil {
+			closeAll(unused)
+		}
+	}()
+
 	packedOffset := 0
 	for i := range folder {
 		packedOffset += len(si.unpackInfo.folder[i].packed)
@@ -369,10 +394,13 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			in[j] = out[bp.out]
 		}
 
-		var (
-			isEncrypted bool
-			err         error
-		)
+		for j := input; j < input+c.in; j++ {
+			if bp := f.findInBindPair(j); bp != nil {
+				unused[bp.out] = nil
+			}
+		}
+
+		var isEncrypted bool
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
 
@@ -384,6 +412,8 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			return nil, 0, hasEncryption, err
 		}
 
+		unused[output] = out[output]
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From b740eac5ecc1edd7ec490b2176909b7857069453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 18/44] fix: accept a decompressor that ends early again

This reverts commit 1581c43, TestBraRead reads an encrypted archive without
its password and relies on it. A packed stream that is cut short is still
reported, see packedReader.
---
 struct.go | 29 +----------------------------
 1 file changed, 1 insertion(+), 28 deletions(-)

diff --git a/struct.go b/struct.go
index fd4e315..c08dfa3 100644
--- a/struct.go
+++ b/struct.go
@@ -124,34 +124,7 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 		}
 	}
 
-	return &limitReadCloser{cr, int64(f.size[coder])}, ok, nil //nolint:gosec
-}
-
-// limitReadCloser limits an io.ReadCloser to its expected size. It differs
-// from plumbing.LimitReadCloser by returning io.ErrUnexpectedEOF if there is
-// less data than that.
-type limitReadCloser struct {
-	io.ReadCloser
-	n int64
-}
-
-func (rc *limitReadCloser) Read(p []byte) (int, error) {
-	if rc.n <= 0 {
-		return 0, io.EOF
-	}
-
-	if int64(len(p)) > rc.n {
-		p = p[:rc.n]
-	}
-
-	n, err := rc.ReadCloser.Read(p)
-	rc.n -= int64(n)
-
-	if rc.n > 0 && errors.Is(err, io.EOF) {
-		err = io.ErrUnexpectedEOF
-	}
-
-	return n, err //nolint:wrapcheck
+	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
 }
 
 // packedReader reads a packed stream of n bytes. It returns
-- 
2.43.0


From 06106abf37811dc1b645eb3058e77cf8ef37d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 19/44] fix: check the header before parsing it

---
 reader.go | 60 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/reader.go b/reader.go
index 9587cf8..10bf935 100644
--- a/reader.go
+++ b/reader.go
@@ -2,7 +2,6 @@
 package sevenzip
 
 import (
-	"bufio"
 	"bytes"
 	"encoding/binary"
 	"errors"
@@ -390,6 +389,35 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 	return offsets, nil
 }
 
+// readHeaderBytes reads all size bytes of a header.
+func readHeaderBytes(r io.Reader, size uint64) ([]byte, error) {
+	b, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err //nolint:wrapcheck
+	}
+
+	if uint64(len(b)) != size {
+		return nil, io.ErrUnexpectedEOF
+	}
+
+	return b, nil
+}
+
+// decodeHeader reads the encoded header from fr, checking it before trusting
+// anything in it.
+func decodeHeader(fr *folderReadCloser, crc uint32) (*header, error) {
+	b, err := readHeaderBytes(fr, uint64(fr.Size())) //nolint:gosec
+	if err != nil {
+		return nil, err
+	}
+
+	if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
+		return nil, errChecksum
+	}
+
+	return readEncodedHeader(bytes.NewReader(b))
+}
+
 //nolint:cyclop,funlen,gocognit,gocyclo,maintidx
 func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 	h := crc32.NewIEEE()
@@ -457,10 +485,18 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 	z.start += off
 	z.end += off
 
-	h.Reset()
+	// Read and check the whole header before trusting anything in it
+	b, err := readHeaderBytes(io.NewSectionReader(r, z.end, int64(start.Size)), start.Size) //nolint:gosec
+	if err != nil {
+		return fmt.Errorf("sevenzip: error reading header: %w", err)
+	}
+
+	// CRC should match the one from the start header
+	if crc32.ChecksumIEEE(b) != start.CRC {
+		return errChecksum
+	}
 
-	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
-	br := bufio.NewReader(io.NewSectionReader(tra, z.end, int64(start.Size))) //nolint:gosec
+	br := bytes.NewReader(b)
 
 	var (
 		id          byte
@@ -485,17 +521,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		return errUnexpectedID
 	}
 
-	// If there's more data to read, we've not parsed this correctly. This
-	// won't break with trailing data as the bufio.Reader was bounded
-	if n, _ := io.CopyN(io.Discard, br, 1); n != 0 {
+	// If there's more data to read, we've not parsed this correctly
+	if br.Len() != 0 {
 		return errTooMuch
 	}
 
-	// CRC should match the one from the start header
-	if !util.CRC32Equal(h.Sum(nil), start.CRC) {
-		return errChecksum
-	}
-
 	// If the header was encoded we should have sufficient information now
 	// to decode it
 	if streamsInfo != nil {
@@ -521,16 +551,12 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			err = errors.Join(err, fr.Close())
 		}()
 
-		if header, err = readEncodedHeader(util.ByteReadCloser(fr)); err != nil {
+		if header, err = decodeHeader(fr, crc); err != nil {
 			return &ReadError{
 				Encrypted: fr.hasEncryption,
 				Err:       err,
 			}
 		}
-
-		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
-			return errChecksum
-		}
 	}
 
 	z.si = header.streamsInfo
-- 
2.43.0


From 7da3d380b5762ae412fe56b12473d3a3e8dea7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 20/44] fix: don't let a decompressor take a truncated stream
 for a complete one

---
 struct.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index c08dfa3..91247ab 100644
--- a/struct.go
+++ b/struct.go
@@ -23,6 +23,7 @@ var (
 	errSeekEOF               = errors.New("cannot seek beyond EOF")
 	errMultipleOutputStreams = errors.New("more than one output stream")
 	errNoBoundStream         = errors.New("cannot find bound stream")
+	errTruncated             = fmt.Errorf("sevenzip: packed stream is truncated: %w", io.ErrUnexpectedEOF)
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
 )
 
@@ -127,9 +128,9 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
 }
 
-// packedReader reads a packed stream of n bytes. It returns
-// io.ErrUnexpectedEOF if the archive is too short to contain all of it, and
-// remembers the first error as some decompressors would otherwise carry on.
+// packedReader reads a packed stream of n bytes. It returns errTruncated if
+// the archive is too short to contain all of it, and remembers the first error
+// as some decompressors would otherwise carry on.
 type packedReader struct {
 	r   io.Reader
 	n   int64
@@ -145,7 +146,7 @@ func (pr *packedReader) Read(p []byte) (int, error) {
 	pr.n -= int64(n)
 
 	if pr.n > 0 && errors.Is(err, io.EOF) {
-		err = io.ErrUnexpectedEOF
+		err = errTruncated
 	}
 
 	pr.err = err
-- 
2.43.0


From a7dc58be31e7f14b9b1b75fb5c98c4ad151d6c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:26 +0000
Subject: [PATCH 21/44] fix: don't pass on a wrapped io.EOF as the end of a
 file

---
 struct.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 91247ab..d117066 100644
--- a/struct.go
+++ b/struct.go
@@ -171,7 +171,12 @@ func (rc *folderReadCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.ReadCloser.Read(p)
-	if err != nil && !errors.Is(err, io.EOF) {
+	if err != nil && err != io.EOF { //nolint:errorlint
+		if errors.Is(err, io.EOF) {
+			// Some decompressors wrap io.EOF if a corrupt stream ends early
+			err = fmt.Errorf("%w: %v", io.ErrUnexpectedEOF, err) //nolint:errorlint
+		}
+
 		rc.err = err
 	}
 
-- 
2.43.0


From 7072d6d0457def31e875cbd18fdbbc5482cd4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 22/44] fix: find the stream of a file if there is no
 substreams info

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index d117066..bb4cb2f 100644
--- a/struct.go
+++ b/struct.go
@@ -294,6 +294,9 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
 		}
+	} else {
+		// There is exactly one file in every folder
+		folder = file
 	}
 
 	if streams == 1 {
-- 
2.43.0


From 056d2367b8263e5db137ef55a9bb4fa13b5aa549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 23/44] fix: don't list the root directory as its own entry

fs.WalkDir never finished if an archive had an entry such as './'.
---
 reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 10bf935..15eb1fb 100644
--- a/reader.go
+++ b/reader.go
@@ -715,7 +715,8 @@ func (z *Reader) initFileList() {
 			isDir := len(file.Name) > 0 && file.Name[len(file.Name)-1] == '/'
 
 			name := toValidName(file.Name)
-			if name == "" {
+			if name == "" || name == "." || name == ".." {
+				// The root itself, which can't be an entry of any directory
 				continue
 			}
 
-- 
2.43.0


From e408b3d73cde5f01c3c7e80e2d61eabcab3976a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 24/44] fix: use the same base name in a file's info as in its
 directory

They differed if the path was separated by backslashes.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index bb4cb2f..8440c6a 100644
--- a/struct.go
+++ b/struct.go
@@ -458,7 +458,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From 880a534eca23633b54bd0432403deb708acd3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 25/44] fix: check the coders of a folder and how they are
 connected

More streams than there can be were allocated, and an index out of range
panicked.
---
 types.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/types.go b/types.go
index dfeb2b2..d436085 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -54,8 +55,13 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
+// maxFolderStreams limits the number of coders in a folder and the number of
+// their streams. 7-Zip has the same limit.
+const maxFolderStreams = 64
+
 func checkUint64(v uint64, nonZero bool) error {
 	if nonZero && v == 0 {
 		return errUint64NonZero
@@ -319,6 +325,10 @@ func readFolder(r util.Reader) (*folder, error) {
 		return nil, err
 	}
 
+	if coders > maxFolderStreams {
+		return nil, errTooManyCoders
+	}
+
 	f.coder = make([]*coder, 0, min(coders, 16))
 
 	for range coders {
@@ -331,14 +341,10 @@ func readFolder(r util.Reader) (*folder, error) {
 
 		f.in += coder.in
 		f.out += coder.out
-	}
-
-	if err := checkUint64(f.in, true); err != nil {
-		return nil, err
-	}
 
-	if err := checkUint64(f.out, true); err != nil {
-		return nil, err
+		if f.in > maxFolderStreams || f.out > maxFolderStreams {
+			return nil, errTooManyCoders
+		}
 	}
 
 	if f.in < f.out {
@@ -360,6 +366,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			return nil, err
 		}
 
+		if in >= f.in || f.findInBindPair(in) != nil || out >= f.out || f.findOutBindPair(out) != nil {
+			return nil, errInvalidBindPair
+		}
+
 		f.bindPair = append(f.bindPair, &bindPair{
 			in:  in,
 			out: out,
@@ -381,6 +391,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			if f.packed[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.packed[i] >= f.in || f.findInBindPair(f.packed[i]) != nil || slices.Contains(f.packed[:i], f.packed[i]) {
+				return nil, errInvalidBindPair
+			}
 		}
 	}
 
-- 
2.43.0


From f0570faf8248d6254d31e4ee895a6fca1dad3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 26/44] fix: check that the streams, folders and files of a
 header fit together

Missing sizes, or more files than there are streams, panicked.
---
 struct.go | 37 +++++++++++++++++++++++++++++++++++++
 types.go  | 30 +++++++++++++++++++++++++++++-
 2 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8440c6a..db681e0 100644
--- a/struct.go
+++ b/struct.go
@@ -274,6 +274,43 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// Files returns the number of files that have a stream.
+func (si *streamsInfo) Files() uint64 {
+	if si == nil || si.subStreamsInfo == nil {
+		// There is exactly one file in every folder
+		return uint64(si.Folders()) //nolint:gosec
+	}
+
+	files := uint64(0)
+	for _, streams := range si.subStreamsInfo.streams {
+		files += streams
+	}
+
+	return files
+}
+
+// packedStreams returns the number of packed streams needed by the folders.
+func (si *streamsInfo) packedStreams() int {
+	n := 0
+
+	if si.unpackInfo != nil {
+		for _, f := range si.unpackInfo.folder {
+			n += len(f.packed)
+		}
+	}
+
+	return n
+}
+
+// packSizes returns the number of packed streams of known size.
+func (si *streamsInfo) packSizes() int {
+	if si.packInfo == nil {
+		return 0
+	}
+
+	return len(si.packInfo.size)
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
 		folder  int
diff --git a/types.go b/types.go
index d436085..7707b3d 100644
--- a/types.go
+++ b/types.go
@@ -55,6 +55,7 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidStreams         = errors.New("sevenzip: inconsistent streams")
 	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
@@ -471,6 +472,10 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			if f.size[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.size[i] > math.MaxInt64 {
+				return nil, errUint64TooLarge
+			}
 		}
 	}
 
@@ -526,7 +531,18 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 
 	// Count the files in each stream
 	files := uint64(0)
+	sizes := id == idSize
+
 	for _, v := range s.streams {
+		// The sizes can only be omitted if they're not needed
+		if v > 1 && !sizes {
+			return nil, errInvalidStreams
+		}
+
+		if err := checkUint64(v, false); err != nil {
+			return nil, err
+		}
+
 		files += v
 	}
 
@@ -550,6 +566,10 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 					return nil, err
 				}
 
+				if s.size[k] > folder[i].unpackSize()-total {
+					return nil, errInvalidStreams
+				}
+
 				total += s.size[k]
 				k++
 			}
@@ -632,6 +652,10 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if s.packedStreams() > s.packSizes() {
+		return nil, errInvalidStreams
+	}
+
 	return s, nil
 }
 
@@ -953,7 +977,7 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
@@ -964,6 +988,10 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
+		if uint64(j) >= h.streamsInfo.Files() { //nolint:gosec
+			return nil, errInvalidStreams
+		}
+
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From f13578ef48f862afc9da6165f591fb4e9e595e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 27/44] fix: don't allocate memory for counts that the header
 has no data for

---
 types.go | 68 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/types.go b/types.go
index 7707b3d..fa1e401 100644
--- a/types.go
+++ b/types.go
@@ -56,6 +56,7 @@ var (
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
 	errInvalidStreams         = errors.New("sevenzip: inconsistent streams")
+	errTooManyFiles           = errors.New("sevenzip: too many files")
 	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
@@ -149,6 +150,8 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if everything is defined. Nothing is allocated
+// as the count may not be backed by that much data.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -163,12 +166,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -203,14 +201,18 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, err
 	}
 
-	crcs := make([]uint32, count)
+	crcs := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var crc uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs = append(crcs, crc)
 	}
 
 	return crcs, nil
@@ -304,14 +306,16 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
+		properties, err := io.ReadAll(io.LimitReader(r, int64(size))) //nolint:gosec
+		if err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
+		}
 
+		if uint64(len(properties)) != size {
 			return nil, errIncompleteRead
 		}
+
+		c.properties = slices.Clip(properties)
 	}
 
 	return c, nil
@@ -551,8 +555,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+		s.size = make([]uint64, 0, min(files, 1024))
 
 		for i := range s.streams {
 			if s.streams[i] == 0 {
@@ -562,20 +565,20 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 			total := uint64(0)
 
 			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
+				size, err := readUint64(r)
+				if err != nil {
 					return nil, err
 				}
 
-				if s.size[k] > folder[i].unpackSize()-total {
+				if size > folder[i].unpackSize()-total {
 					return nil, errInvalidStreams
 				}
 
-				total += s.size[k]
-				k++
+				s.size = append(s.size, size)
+				total += size
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
-			k++
+			s.size = append(s.size, folder[i].unpackSize()-total)
 		}
 
 		id, err = r.ReadByte()
@@ -690,8 +693,8 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 
 	times := make([]time.Time, count)
 
-	for i := range defined {
-		if defined[i] {
+	for i := range times {
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
@@ -796,8 +799,8 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 
 	attributes := make([]uint32, count)
 
-	for i := range defined {
-		if defined[i] {
+	for i := range attributes {
+		if defined == nil || defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
@@ -808,7 +811,7 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func readFilesInfo(r util.Reader) (*filesInfo, error) {
+func readFilesInfo(r *bytes.Reader) (*filesInfo, error) {
 	f := new(filesInfo)
 
 	files, err := readUint64Bounded(r, true)
@@ -816,6 +819,11 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
+	// Don't allocate more than the header has data for
+	if files > uint64(r.Len()) { //nolint:gosec
+		return nil, errTooManyFiles
+	}
+
 	f.file = make([]FileHeader, files)
 
 	var emptyStreams uint64
@@ -923,7 +931,7 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 }
 
 //nolint:cyclop,funlen
-func readHeader(r util.Reader) (*header, error) {
+func readHeader(r *bytes.Reader) (*header, error) {
 	h := new(header)
 
 	id, err := r.ReadByte()
@@ -999,7 +1007,7 @@ func readHeader(r util.Reader) (*header, error) {
 	return h, nil
 }
 
-func readEncodedHeader(r util.Reader) (*header, error) {
+func readEncodedHeader(r *bytes.Reader) (*header, error) {
 	if id, err := r.ReadByte(); err != nil || id != idHeader {
 		if err != nil {
 			return nil, fmt.Errorf("readEncodedHeader: ReadByte error: %w", err)
-- 
2.43.0


From 67d02fb8bb076693e9945ff84f9598e3ad9b7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 28/44] fix: check the size and position of the packed streams

The end of a packed stream overflowed, which could panic.
---
 types.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/types.go b/types.go
index fa1e401..b59e9b7 100644
--- a/types.go
+++ b/types.go
@@ -265,6 +265,20 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	// The end of the last packed stream has to be a valid offset
+	end := p.position
+	for _, size := range p.size {
+		if end > math.MaxInt64 || size > math.MaxInt64 {
+			return nil, errUint64TooLarge
+		}
+
+		end += size
+	}
+
+	if end > math.MaxInt64 {
+		return nil, errUint64TooLarge
+	}
+
 	return p, nil
 }
 
-- 
2.43.0


From 8380b991f462b7a662fb6da1abf3276aa62bd1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 29/44] fix: check the size of the LZMA properties

Otherwise the dictionary size was taken from elsewhere and anything up to 4 GiB
got allocated.
---
 internal/lzma/reader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index b8d277c..ff0c744 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"slices"
 
 	"github.com/ulikunitz/xz/lzma"
 )
@@ -17,8 +18,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("lzma: already closed")
-	errNeedOneReader = errors.New("lzma: need exactly one reader")
+	errAlreadyClosed          = errors.New("lzma: already closed")
+	errInsufficientProperties = errors.New("lzma: not enough properties")
+	errNeedOneReader          = errors.New("lzma: need exactly one reader")
 )
 
 func (rc *readCloser) Close() error {
@@ -54,7 +56,11 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errNeedOneReader
 	}
 
-	h := bytes.NewBuffer(p)
+	if len(p) != 5 {
+		return nil, errInsufficientProperties
+	}
+
+	h := bytes.NewBuffer(slices.Clone(p))
 	_ = binary.Write(h, binary.LittleEndian, s)
 
 	lr, err := lzma.NewReader(multiReader(h, readers[0]))
-- 
2.43.0


From cc2e4883e09b7542986a75b70ff082cd5be27259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 30/44] fix: read the checksums of files if some streams have
 their own

The checksum of the only file of such a stream isn't repeated.
---
 struct.go | 12 +++++++++---
 types.go  | 51 +++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/struct.go b/struct.go
index db681e0..386764b 100644
--- a/struct.go
+++ b/struct.go
@@ -250,8 +250,14 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+// hasCRC returns if the checksum of a folder is defined.
+func (u *unpackInfo) hasCRC(folder int) bool {
+	return len(u.digest) > 0 && (u.defined == nil || u.defined[folder])
 }
 
 type subStreamsInfo struct {
@@ -337,7 +343,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasCRC(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index b59e9b7..07d4f4e 100644
--- a/types.go
+++ b/types.go
@@ -191,14 +191,15 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+// readCRC returns the checksums and which of them are defined, nil if all are.
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, 0, min(count, 1024))
@@ -208,14 +209,14 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 
 		if defined == nil || defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 
 		crcs = append(crcs, crc)
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -251,7 +252,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -503,7 +504,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -520,9 +521,39 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	return u, nil
 }
 
+// readSubStreamsCRC returns the checksums of the files. If a folder has just
+// one file and its own checksum is defined then it's not repeated.
+func readSubStreamsCRC(r util.Reader, streams []uint64, u *unpackInfo) ([]uint32, error) {
+	unknown := uint64(0)
+
+	for i, v := range streams {
+		if v != 1 || !u.hasCRC(i) {
+			unknown += v
+		}
+	}
+
+	unknownCRCs, _, err := readCRC(r, unknown)
+	if err != nil {
+		return nil, err
+	}
+
+	crcs := make([]uint32, 0, len(unknownCRCs)+len(streams))
+
+	for i, v := range streams {
+		if v == 1 && u.hasCRC(i) {
+			crcs = append(crcs, u.digest[i])
+		} else {
+			crcs, unknownCRCs = append(crcs, unknownCRCs[:v]...), unknownCRCs[v:]
+		}
+	}
+
+	return crcs, nil
+}
+
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	s := new(subStreamsInfo)
+	folder := u.folder
 
 	id, err := r.ReadByte()
 	if err != nil {
@@ -602,7 +633,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		if s.digest, err = readSubStreamsCRC(r, s.streams, u); err != nil {
 			return nil, err
 		}
 
@@ -655,7 +686,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From f6cc6ea3f7b77ff7d467773fccf988de1058d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 31/44] fix: report times before 1678 and after 2262 correctly

---
 types.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 07d4f4e..6169cca 100644
--- a/types.go
+++ b/types.go
@@ -707,6 +707,14 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	return s, nil
 }
 
+const (
+	// ticksPerSecond is the resolution of a Windows FILETIME.
+	ticksPerSecond = 10_000_000
+	// secondsToEpoch is the time from 1601, when a Windows FILETIME
+	// starts, until 1970.
+	secondsToEpoch = 11_644_473_600
+)
+
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -745,7 +753,14 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			// Not ft.Nanoseconds(), which only works for the years
+			// from 1678 to 2262
+			ticks := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+
+			times[i] = time.Unix(
+				int64(ticks/ticksPerSecond)-secondsToEpoch, //nolint:gosec
+				int64(ticks%ticksPerSecond)*100,            //nolint:gosec
+			).UTC()
 		}
 	}
 
-- 
2.43.0


From 407d4cf12e5cf979f1b62663916c775882fb5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 32/44] fix: don't close readers while holding the lock of the
 pool

---
 internal/pool/pool.go | 44 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index 9f3bffd..6dbb175 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -61,9 +61,7 @@ func (p *pool) Get(offset int64) (util.SizeReadSeekCloser, bool) {
 	defer p.mutex.Unlock()
 
 	if ent, ok := p.items[offset]; ok {
-		_ = p.removeElement(ent, false)
-
-		return ent.Value.(*entry).value, true //nolint:forcetypeassert
+		return p.removeElement(ent), true
 	}
 
 	// Sort keys in descending order
@@ -73,10 +71,7 @@ func (p *pool) Get(offset int64) (util.SizeReadSeekCloser, bool) {
 	for _, k := range keys {
 		// First key less than offset is the closest
 		if k < offset {
-			ent := p.items[k]
-			_ = p.removeElement(ent, false)
-
-			return ent.Value.(*entry).value, true //nolint:forcetypeassert
+			return p.removeElement(p.items[k]), true
 		}
 	}
 
@@ -84,26 +79,35 @@ func (p *pool) Get(offset int64) (util.SizeReadSeekCloser, bool) {
 }
 
 func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
+	unwanted, evict := p.add(offset, rc)
+	if unwanted == nil {
+		return false, nil
+	}
+
+	// This may involve I/O so don't keep anyone else waiting
+	return evict, unwanted.Close() //nolint:wrapcheck
+}
+
+// add returns the reader that has to be closed, if any, and if that's because
+// it was evicted.
+func (p *pool) add(offset int64, rc util.SizeReadSeekCloser) (util.SizeReadSeekCloser, bool) {
 	p.mutex.Lock()
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
 		// There's already a reader for this offset so this one isn't needed
-		return false, rc.Close() //nolint:wrapcheck
+		return rc, false
 	}
 
 	ent := &entry{offset, rc}
 	entry := p.evictList.PushFront(ent)
 	p.items[offset] = entry
 
-	var err error
-
-	evict := p.evictList.Len() > p.size
-	if evict {
-		err = p.removeOldest()
+	if p.evictList.Len() > p.size {
+		return p.removeOldest(), true
 	}
 
-	return evict, err
+	return nil, false
 }
 
 func (p *pool) keys() []int64 {
@@ -118,22 +122,18 @@ func (p *pool) keys() []int64 {
 	return keys
 }
 
-func (p *pool) removeOldest() error {
+func (p *pool) removeOldest() util.SizeReadSeekCloser {
 	if ent := p.evictList.Back(); ent != nil {
-		return p.removeElement(ent, true)
+		return p.removeElement(ent)
 	}
 
 	return nil
 }
 
-func (p *pool) removeElement(e *list.Element, cb bool) error {
+func (p *pool) removeElement(e *list.Element) util.SizeReadSeekCloser {
 	p.evictList.Remove(e)
 	kv := e.Value.(*entry) //nolint:forcetypeassert
 	delete(p.items, kv.key)
 
-	if cb {
-		return kv.value.Close() //nolint:wrapcheck
-	}
-
-	return nil
+	return kv.value
 }
-- 
2.43.0


From e93d35d24876b095831532332bc8edacfd2f1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 33/44] fix: recognise directories without attributes

An entry without a stream that's not an empty file is a directory. The
attributes are optional.
---
 struct.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 386764b..2ac67cc 100644
--- a/struct.go
+++ b/struct.go
@@ -536,7 +536,15 @@ func (h *FileHeader) Mode() (mode iofs.FileMode) {
 	if h.Attributes&0xf0000000 != 0 {
 		mode = unixModeToFileMode(h.Attributes >> 16)
 	} else {
-		mode = msdosModeToFileMode(h.Attributes)
+		attributes := h.Attributes
+
+		// Anything without a stream that's not an empty file is a
+		// directory, the attributes are optional
+		if h.isEmptyStream && !h.isEmptyFile {
+			attributes |= msdosDir
+		}
+
+		mode = msdosModeToFileMode(attributes)
 	}
 
 	return
-- 
2.43.0


From cec9c01f6f28f572e5d2c16d1b1b1bc46826511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 34/44] fix: open archives without anything in them

There is no header then, 7-Zip writes such archives too.
---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 15eb1fb..50097a5 100644
--- a/reader.go
+++ b/reader.go
@@ -496,6 +496,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		return errChecksum
 	}
 
+	// There is no header if there is nothing in the archive
+	if start.Size == 0 {
+		return nil
+	}
+
 	br := bytes.NewReader(b)
 
 	var (
-- 
2.43.0


From 97baaec7b6c39bc9b041244215f9044bd8fa0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 35/44] fix: don't buffer more and more of a BCJ2 stream

Every read decoded up to another buffer full, however much was left.
---
 internal/bcj2/reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..f15a3cf 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -34,6 +34,8 @@ const (
 	bitModelTotal        uint = 1 << numbitModelTotalBits
 	numTopBits                = 24
 	topValue             uint = 1 << numTopBits
+
+	bufferSize = 1 << 16
 )
 
 var (
@@ -74,7 +76,7 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		nrange: 0xffffffff,
 		buf:    new(bytes.Buffer),
 	}
-	rc.buf.Grow(1 << 16)
+	rc.buf.Grow(bufferSize)
 
 	b := make([]byte, 5)
 	if _, err := io.ReadFull(rc.rd, b); err != nil {
@@ -115,8 +117,11 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
-		return 0, err
+	// Only decode more if needed, otherwise the buffer would keep growing
+	if rc.buf.Len() == 0 {
+		if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
+			return 0, err
+		}
 	}
 
 	n, err := rc.buf.Read(p)
@@ -191,7 +196,7 @@ func (rc *readCloser) read() error {
 
 		rc.previous = b
 
-		if rc.buf.Len() == rc.buf.Cap() {
+		if rc.buf.Len() >= bufferSize {
 			return nil
 		}
 	}
-- 
2.43.0


From 0a2a45dc17e68f23adb5b14ac754ff905eaa690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 36/44] fix: list the size of the last output of a stream

If a stream has one file then its size was taken from the coder that is
described last, which needn't be the one that yields the file.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 2ac67cc..ed2b74b 100644
--- a/struct.go
+++ b/struct.go
@@ -347,7 +347,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].unpackSize(), crc
 	}
 
 	return folder, si.subStreamsInfo.size[file], crc
-- 
2.43.0


From b35a2e49b228271103c70272e71ea48f20e506ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 37/44] fix: don't limit the length of a name

A bufio.Scanner refuses tokens of more than 64 KiB by default.
---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index 6169cca..5a6ea44 100644
--- a/types.go
+++ b/types.go
@@ -809,6 +809,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
+	scanner.Buffer(nil, math.MaxInt) // There's no limit on the length of a name
 	scanner.Split(splitNull)
 
 	names, i := make([]string, 0, count), uint64(0)
-- 
2.43.0


From 9e2451417c8b106c9def614f0d92f9893011ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 38/44] fix: read a Brotli stream without a frame that's
 shorter than one

---
 internal/brotli/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index 6b6fa8b..d6886b9 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -102,7 +102,8 @@ func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, e
 	// The 7-Zip Brotli compressor adds a 16 byte frame to the beginning of
 	// the data which will confuse a pure Brotli implementation. Read it
 	// but keep a copy so we can add it back if it doesn't look right
-	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
+	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil &&
+		err != io.ErrUnexpectedEOF { //nolint:errorlint // A stream without the frame may be shorter than it
 		if !errors.Is(err, io.EOF) {
 			err = fmt.Errorf("brotli: error reading frame: %w", err)
 		}
-- 
2.43.0


From f14fe44945497388fcbef7c99e38f660129357d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 39/44] fix: read all the frames of a Brotli stream

---
 internal/brotli/reader.go | 52 ++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index d6886b9..972ca61 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -14,8 +14,9 @@ import (
 )
 
 type readCloser struct {
-	c io.Closer
-	r *brotli.Reader
+	c      io.ReadCloser
+	r      *brotli.Reader
+	framed bool
 
 	n, size uint64
 }
@@ -32,9 +33,11 @@ var (
 
 	errAlreadyClosed = errors.New("brotli: already closed")
 	errNeedOneReader = errors.New("brotli: need exactly one reader")
+	errNoFrame       = errors.New("brotli: no frame where one is expected")
 )
 
-// This isn't part of the Brotli format but is prepended by the 7-zip implementation.
+// This isn't part of the Brotli format but is prepended by the 7-zip implementation
+// to each of the Brotli streams that a large stream is split into.
 type headerFrame struct {
 	FrameMagic       uint32
 	FrameSize        uint32
@@ -43,6 +46,10 @@ type headerFrame struct {
 	UncompressedSize uint16 // * 64 KB
 }
 
+func (hr *headerFrame) valid() bool {
+	return hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic
+}
+
 // drained returns if the reader has reached the end of its input. Resetting it
 // doesn't discard any input it has buffered so it can't be reused otherwise.
 func (rc *readCloser) drained() bool {
@@ -81,6 +88,18 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+
+	for rc.framed && n == 0 && len(p) > 0 && (err == nil || errors.Is(err, io.EOF)) {
+		// Nothing is left of this frame
+		if err != nil {
+			if err = rc.nextFrame(); err != nil {
+				break
+			}
+		}
+
+		n, err = rc.r.Read(p)
+	}
+
 	rc.n += uint64(n) //nolint:gosec
 
 	if err != nil && !errors.Is(err, io.EOF) {
@@ -90,6 +109,20 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// nextFrame carries on with the next frame, it returns io.EOF if there is none.
+func (rc *readCloser) nextFrame() error {
+	hr := new(headerFrame)
+	if err := binary.Read(rc.c, binary.LittleEndian, hr); err != nil {
+		return err //nolint:wrapcheck
+	}
+
+	if !hr.valid() {
+		return errNoFrame
+	}
+
+	return rc.r.Reset(io.LimitReader(rc.c, int64(hr.CompressedSize))) //nolint:wrapcheck
+}
+
 // NewReader returns a new Brotli io.ReadCloser.
 func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
 	if len(readers) != 1 {
@@ -111,12 +144,12 @@ func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, e
 		return nil, err
 	}
 
-	var reader io.ReadCloser
+	var reader io.Reader
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
-		reader = readers[0]
+	if hr.valid() {
+		reader = io.LimitReader(readers[0], int64(hr.CompressedSize))
 	} else {
 		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
 	}
@@ -129,8 +162,9 @@ func NewReader(_ []byte, size uint64, readers []io.ReadCloser) (io.ReadCloser, e
 	}
 
 	return &readCloser{
-		c:    readers[0],
-		r:    r,
-		size: size,
+		c:      readers[0],
+		r:      r,
+		framed: hr.valid(),
+		size:   size,
 	}, nil
 }
-- 
2.43.0


From d87c5f31fff6d2863f2aed8a0071b1efa83ed14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 40/44] fix: accept the largest dictionary size of LZMA2

---
 internal/lzma2/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index 59cca7b..e650c74 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -62,8 +62,10 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errInvalidProperties
 	}
 
+	dictCap := (2 | (int64(p[0]) & 1)) << (p[0]/2 + 11) // This gem came from Lzma2Dec.c
+
 	config := lzma.Reader2Config{
-		DictCap: (2 | (int(p[0]) & 1)) << (p[0]/2 + 11), // This gem came from Lzma2Dec.c
+		DictCap: int(min(dictCap, lzma.MaxDictCap)), // The largest one is a byte short of 4 GiB
 	}
 
 	if err := config.Verify(); err != nil {
-- 
2.43.0


From 05b9f543f9e507c524ba90fc1d06081dbce9f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 41/44] fix: a reader that returns nothing, and no error, may
 be read again

---
 internal/util/reader.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index f927b2c..4c63e13 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -41,6 +41,9 @@ func NopCloser(r Reader) ReadCloser {
 	return &nopCloser{r}
 }
 
+// maxEmptyReads is how many times in a row a reader may return nothing.
+const maxEmptyReads = 100
+
 type byteReadCloser struct {
 	io.ReadCloser
 }
@@ -48,16 +51,18 @@ type byteReadCloser struct {
 func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
-	n, err := rc.Read(b[:])
-	if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
-		return 0, err //nolint:wrapcheck
-	}
+	for range maxEmptyReads {
+		n, err := rc.Read(b[:])
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
+			return 0, err //nolint:wrapcheck
+		}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
+		if n > 0 {
+			return b[0], nil
+		}
 	}
 
-	return b[0], nil
+	return 0, io.ErrNoProgress
 }
 
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
-- 
2.43.0


From 30e724ba1540eee64e57dba6a351ee9973193403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 42/44] fix: accept an LZMA dictionary of 2 GiB or more

---
 internal/lzma/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index ff0c744..989eedf 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"slices"
 
 	"github.com/ulikunitz/xz/lzma"
@@ -63,7 +64,12 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	h := bytes.NewBuffer(slices.Clone(p))
 	_ = binary.Write(h, binary.LittleEndian, s)
 
-	lr, err := lzma.NewReader(multiReader(h, readers[0]))
+	config := lzma.ReaderConfig{
+		// The default is a limit of 2 GiB. No more than the size of the stream is ever allocated
+		DictCap: int(min(int64(lzma.MaxDictCap), math.MaxInt)),
+	}
+
+	lr, err := config.NewReader(multiReader(h, readers[0]))
 	if err != nil {
 		return nil, fmt.Errorf("lzma: error creating reader: %w", err)
 	}
-- 
2.43.0


From 5c6870c0ba06042589343855ef96704b2431b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 43/44] fix: a reader below LZMA, LZMA2 and PPMd may return
 nothing, and no error

---
 internal/lzma/reader.go  |  3 ++-
 internal/lzma2/reader.go |  3 ++-
 internal/ppmd/reader.go  |  3 ++-
 internal/util/reader.go  | 25 +++++++++++++++----------
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/internal/lzma/reader.go b/internal/lzma/reader.go
index 989eedf..9a69a20 100644
--- a/internal/lzma/reader.go
+++ b/internal/lzma/reader.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"slices"
 
+	"github.com/bodgit/sevenzip/internal/util"
 	"github.com/ulikunitz/xz/lzma"
 )
 
@@ -69,7 +70,7 @@ func NewReader(p []byte, s uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		DictCap: int(min(int64(lzma.MaxDictCap), math.MaxInt)),
 	}
 
-	lr, err := config.NewReader(multiReader(h, readers[0]))
+	lr, err := config.NewReader(multiReader(h, util.ByteReadCloser(readers[0])))
 	if err != nil {
 		return nil, fmt.Errorf("lzma: error creating reader: %w", err)
 	}
diff --git a/internal/lzma2/reader.go b/internal/lzma2/reader.go
index e650c74..9a417a5 100644
--- a/internal/lzma2/reader.go
+++ b/internal/lzma2/reader.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/bodgit/sevenzip/internal/util"
 	"github.com/ulikunitz/xz/lzma"
 )
 
@@ -72,7 +73,7 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, fmt.Errorf("lzma2: error verifying config: %w", err)
 	}
 
-	lr, err := config.NewReader2(readers[0])
+	lr, err := config.NewReader2(util.ByteReadCloser(readers[0]))
 	if err != nil {
 		return nil, fmt.Errorf("lzma2: error creating reader: %w", err)
 	}
diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 0b01cb3..6539639 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/bodgit/sevenzip/internal/util"
 	"github.com/stangelandcl/ppmd"
 )
 
@@ -94,7 +95,7 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	er := &errReader{r: readers[0]}
+	er := &errReader{r: util.ByteReadCloser(readers[0])}
 
 	pr, err := ppmd.NewH7zReader(er, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
diff --git a/internal/util/reader.go b/internal/util/reader.go
index 4c63e13..e7763d9 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -48,23 +48,28 @@ type byteReadCloser struct {
 	io.ReadCloser
 }
 
-func (rc *byteReadCloser) ReadByte() (byte, error) {
-	var b [1]byte
-
+// Read reads again if nothing, and no error, is returned.
+func (rc *byteReadCloser) Read(p []byte) (int, error) {
 	for range maxEmptyReads {
-		n, err := rc.Read(b[:])
-		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
-			return 0, err //nolint:wrapcheck
-		}
-
-		if n > 0 {
-			return b[0], nil
+		if n, err := rc.ReadCloser.Read(p); n > 0 || err != nil || len(p) == 0 {
+			return n, err //nolint:wrapcheck
 		}
 	}
 
 	return 0, io.ErrNoProgress
 }
 
+func (rc *byteReadCloser) ReadByte() (byte, error) {
+	var b [1]byte
+
+	n, err := rc.Read(b[:])
+	if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
+		return 0, err
+	}
+
+	return b[0], nil
+}
+
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
 // r if it implements the interface, or wrapping it with a ReadByte method.
 func ByteReadCloser(r io.ReadCloser) ReadCloser {
-- 
2.43.0


From a0920f6dfb7cd28f6e81e13be667c0b3d977402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 44/44] fix: hint at encryption if a decoder below the one that
 decrypts fails

---
 register.go |  2 +-
 struct.go   | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/register.go b/register.go
index 30fb465..59f958a 100644
--- a/register.go
+++ b/register.go
@@ -69,7 +69,7 @@ func init() {
 	// LZ4
 	RegisterDecompressor([]byte{0x04, 0xf7, 0x11, 0x04}, Decompressor(lz4.NewReader))
 	// AES-CBC-256 & SHA-256
-	RegisterDecompressor([]byte{0x06, 0xf1, 0x07, 0x01}, Decompressor(aes7z.NewReader))
+	RegisterDecompressor(aesMethod, Decompressor(aes7z.NewReader))
 	// ARM64
 	RegisterDecompressor([]byte{0x0a}, Decompressor(bra.NewARM64Reader))
 	// LZMA2
diff --git a/struct.go b/struct.go
index ed2b74b..0e6039c 100644
--- a/struct.go
+++ b/struct.go
@@ -2,6 +2,7 @@ package sevenzip
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"hash"
@@ -27,6 +28,9 @@ var (
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
 )
 
+//nolint:gochecknoglobals
+var aesMethod = []byte{0x06, 0xf1, 0x07, 0x01}
+
 // CryptoReadCloser adds a Password method to decompressors.
 type CryptoReadCloser interface {
 	Password(password string) error
@@ -401,6 +405,13 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		input, output uint64
 	)
 
+	// A coder below the one that decrypts may fail before it's created
+	for _, c := range f.coder {
+		if bytes.Equal(c.id, aesMethod) {
+			hasEncryption = true
+		}
+	}
+
 	for i, c := range f.coder {
 		if c.out != 1 {
 			return nil, 0, hasEncryption, errMultipleOutputStreams
-- 
2.43.0

