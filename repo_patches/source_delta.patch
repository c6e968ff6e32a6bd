From 6d83aa2ecda34cd3290e87c26bdbdc00044fc74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 01/62] fix: memfs: MkdirAll over a file left the parent
 directory locked

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From 10e9897eb42f7ab90b13728fe39b29c51cf2991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 02/62] fix: memfs: directory handles list pages in order,
 once, and end with EOF

---
 memfs/memfs.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..beb7753 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -306,8 +308,10 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir     *dir
+	started bool
+	last    string
+	closed  bool
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -325,10 +329,15 @@ func (d *fhDir) Read(b []byte) (int, error) {
 }
 
 func (d *fhDir) Close() error {
+	d.closed = true
 	return nil
 }
 
 func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
+	if d.closed {
+		return nil, fs.ErrClosed
+	}
+
 	d.dir.mu.Lock()
 	defer d.dir.mu.Unlock()
 
@@ -337,14 +346,25 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		names = append(names, name)
 	}
 
-	if n <= 0 {
-		n = len(names)
+	sort.Strings(names)
+
+	// Resume after the last name returned, entries may have been added since.
+	if d.started {
+		names = names[sort.SearchStrings(names, d.last+"\x00"):]
+	}
+
+	if n > 0 {
+		if len(names) == 0 {
+			return nil, io.EOF
+		}
+		if n < len(names) {
+			names = names[:n]
+		}
 	}
 
-	out := make([]fs.DirEntry, 0, n)
+	out := make([]fs.DirEntry, 0, len(names))
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
+	for _, name := range names {
 		child := d.dir.children[name]
 
 		f, isFile := child.(*File)
@@ -366,7 +386,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			})
 		}
 
-		d.idx = i
+		d.started, d.last = true, name
 	}
 	return out, nil
 }
-- 
2.43.0


From 166580f6e3be30af3716ba582956c9b275733405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 03/62] fix: memfs: DirEntry.Type returned permission bits

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index beb7753..4b9c4bb 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -480,7 +480,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From 4840e57b57135c3a8748e97a730df3dd163695c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 04/62] fix: memfs: Sub refused the root and accepted invalid
 paths

---
 memfs/memfs.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 4b9c4bb..565f521 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -292,6 +292,19 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if !fs.ValidPath(path) {
+		return nil, &fs.PathError{
+			Op:   "sub",
+			Path: path,
+			Err:  fs.ErrInvalid,
+		}
+	}
+
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6d8afdc6fcefcd9e447ec268d68b1e8f246abe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 05/62] fix: memfs: the root directory had an empty name

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 565f521..e0c0484 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -64,6 +64,7 @@ type FS struct {
 func New() *FS {
 	return &FS{
 		dir: &dir{
+			name:     ".",
 			children: make(map[string]childI),
 		},
 	}
-- 
2.43.0


From 7d0aa6f792e2a9ce311d91dd812aa3e4877f5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 06/62] fix: memfs: the size a file handle reports shrank while
 reading

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index e0c0484..96a77b1 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -249,6 +249,7 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		return err
 	}
 	f.content = bytes.NewBuffer(data)
+	f.size = int64(len(data))
 	f.perm = perm
 	return nil
 }
@@ -279,6 +280,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 			name:    cc.name,
 			perm:    cc.perm,
 			content: bytes.NewBuffer(cc.content.Bytes()),
+			size:    cc.size,
 		}
 		return handle, nil
 	case *dir:
@@ -409,6 +411,7 @@ type File struct {
 	name    string
 	perm    os.FileMode
 	content *bytes.Buffer
+	size    int64
 	modTime time.Time
 	closed  bool
 }
@@ -419,7 +422,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From be2d2b1f5632dbfc7a444f7b05a9d23c4b7f9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 07/62] fix: memfs: WriteFile to the root created a file
 without a name

---
 memfs/memfs.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 96a77b1..1ee1ae5 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -200,7 +200,7 @@ func (rootFS *FS) create(path string) (*File, error) {
 
 	if path == "." {
 		// root dir
-		path = ""
+		return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 	}
 
 	dirPart, filePart := syspath.Split(path)
@@ -239,11 +239,6 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
 
-	if path == "." {
-		// root dir
-		path = ""
-	}
-
 	f, err := rootFS.create(path)
 	if err != nil {
 		return err
-- 
2.43.0


From 5d5f1a78fb55d7ac9e03a9d85d30001a1b742d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 08/62] fix: memfs: WriteFile kept the buffer of its caller

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 1ee1ae5..2aaa73b 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -243,7 +243,7 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	f.content = bytes.NewBuffer(data)
+	f.content = bytes.NewBuffer(bytes.Clone(data))
 	f.size = int64(len(data))
 	f.perm = perm
 	return nil
-- 
2.43.0


From dd09447b3ae3f0aae0d22bf8978933d765debf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 09/62] fix: memfs: WriteFile published a file before its
 contents and changed the permissions of existing files

---
 memfs/memfs.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 2aaa73b..2769f15 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -193,7 +193,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -215,16 +215,18 @@ func (rootFS *FS) create(path string) (*File, error) {
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+		perm = existingFile.perm
 	}
 
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(bytes.Clone(data)),
+		size:    int64(len(data)),
 	}
 	dir.children[filePart] = newFile
 
@@ -239,14 +241,8 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		return fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(bytes.Clone(data))
-	f.size = int64(len(data))
-	f.perm = perm
-	return nil
+	_, err := rootFS.create(path, data, perm)
+	return err
 }
 
 // Open opens the named file.
-- 
2.43.0


From 9ddb215f58f0ba09d3dabc4fa9b3c1d88dd6269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 10/62] fix: arfs: a member header with half a terminator was
 accepted

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From ae4ff805b2f0cc69f2afa09109238311a80e6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 11/62] fix: arfs: negative member sizes made Open loop forever

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..918a9de 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,10 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	if e.FileSize < 0 {
+		return nil, fmt.Errorf("invalid file size: %d", e.FileSize)
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 92fd4bb92cc740d034c85572d585b01ad3892130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 12/62] fix: arfs: truncated archives were accepted, and
 complete ones refused when the reader returns io.EOF with the last bytes

---
 arfs/arfs.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 918a9de..cabfb75 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -68,20 +68,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	for {
 		line := make([]byte, 60)
 
+		// A reader may return io.EOF along with the last bytes.
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
+		if n < len(line) {
+			if !errors.Is(err, io.EOF) {
+				return nil, err
 			}
 
-			return nil, err
-		}
+			if n == 0 || (n == 1 && line[0] == '\n') {
+				break
+			}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
-		}
-		if n != 60 {
-			return nil, errors.New("short read")
+			return nil, io.ErrUnexpectedEOF
 		}
 
 		e, err := parseArEntry(line)
@@ -94,6 +92,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// Make sure the data is all there.
+		if e.FileSize > 0 {
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n != 1 {
+				if errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+
+				return nil, err
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
@@ -208,7 +218,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	if n, err := ra.ReadAt(header, 0); n < len(header) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From 6d22eeac945ab65bec075b07d1d4de6d5dc54c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 13/62] fix: arfs: names lost leading dots and spaces, and
 empty and dot-dot names were accepted

---
 arfs/arfs.go   | 22 ++++++++++++++++------
 arfs/create.go |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index cabfb75..127d9e2 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -37,7 +37,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"path/filepath"
+	"path"
 	"slices"
 	"strconv"
 	"strings"
@@ -87,8 +87,8 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
-			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
+		if !validFilename(e.Filename) {
+			return nil, fmt.Errorf("invalid filename: %q", e.Filename)
 		}
 
 		begin := offset + int64(n)
@@ -185,7 +185,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: parseFilename(string(line[0:16])),
 		FileMode: fileMode,
 	}
 
@@ -228,7 +228,17 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(path.Clean("/"+name), "/")
+}
+
+// parseFilename extracts the name from the filename field of a header, which is
+// padded with spaces and may be terminated by a slash.
+func parseFilename(field string) string {
+	return strings.TrimPrefix(strings.TrimSuffix(strings.TrimRight(field, " "), "/"), "./")
+}
+
+func validFilename(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
 }
 
 type file struct {
@@ -255,7 +265,7 @@ type Entry struct {
 }
 
 func (e *Entry) Name() string {
-	return filepath.Base(e.Filename)
+	return e.Filename
 }
 
 func (e *Entry) Size() int64 {
diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..2277fd4 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -66,7 +66,7 @@ func Create(dst io.Writer, src fs.FS) error {
 }
 
 func writeArHeader(w io.Writer, hdr *tar.Header) error {
-	name := sanitizePath(hdr.Name)
+	name := hdr.Name
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
-- 
2.43.0


From 0ce67fadb50205ae1a68334eabf191b3258dae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 14/62] fix: arfs: Create wrote broken headers for long values
 and non-ASCII names

---
 arfs/create.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index 2277fd4..f80c9a0 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -71,16 +72,30 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("file name too long: %s", name)
 	}
 
+	if !validFilename(name) || parseFilename(name) != name {
+		return fmt.Errorf("file name not supported: %q", name)
+	}
+
 	// Construct the ar(1) header
-	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
-		strconv.Itoa(int(hdr.ModTime.Unix())),
-		strconv.Itoa(hdr.Uid),
-		strconv.Itoa(hdr.Gid),
-		fmt.Sprintf("%07o", hdr.Mode),
-		fmt.Sprintf("%-10d", hdr.Size),
-	)
+	var arHeader string
+	for _, field := range []struct {
+		value string
+		width int
+	}{
+		{name, 16},
+		{strconv.FormatInt(hdr.ModTime.Unix(), 10), 12},
+		{strconv.Itoa(hdr.Uid), 6},
+		{strconv.Itoa(hdr.Gid), 6},
+		{fmt.Sprintf("%07o", hdr.Mode), 8},
+		{strconv.FormatInt(hdr.Size, 10), 10},
+	} {
+		if len(field.value) > field.width {
+			return fmt.Errorf("header field too long: %s: %s", name, field.value)
+		}
+
+		arHeader += field.value + strings.Repeat(" ", field.width-len(field.value))
+	}
+	arHeader += "`\n"
 
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
-- 
2.43.0


From a9f7375df1b8ded309d57b263f8a56c7d7b7cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 15/62] fix: arfs: Create did not notice that a file has
 another size than its header says

---
 arfs/create.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index f80c9a0..99c11e9 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -50,6 +50,9 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// A hard link has no size of its own in a tar header.
+		hdr.Size = fi.Size()
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
@@ -119,6 +122,10 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 		return err
 	}
 
+	if n != size {
+		return fmt.Errorf("file size changed: %s: got %d bytes, expected %d", path, n, size)
+	}
+
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
 		if _, err := io.WriteString(w, "\n"); err != nil {
-- 
2.43.0


From 271015ef7e07bc6cef3a9ea091a743aabcd539ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 16/62] fix: arfs: Create wrote special files as members

---
 arfs/create.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 99c11e9..a6ed897 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -45,6 +45,10 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		if !fi.Mode().IsRegular() {
+			return fmt.Errorf("file type not supported: %s: %s", d.Name(), fi.Mode())
+		}
+
 		hdr, err := tar.FileInfoHeader(fi, "")
 		if err != nil {
 			return err
-- 
2.43.0


From fa9adf8f51eceb4b4b0e7b43e137db3026c07399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 17/62] fix: arfs: Create lost the owners of files from another
 ar archive

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a6ed897..32dcee3 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -54,6 +54,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// The tar package knows nothing about our own entries.
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// A hard link has no size of its own in a tar header.
 		hdr.Size = fi.Size()
 
-- 
2.43.0


From bd64dded0b45f4faaa3459aaf1e45b4f027c20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 18/62] fix: arfs: the root could not be opened, and listing a
 missing path was not ErrNotExist

---
 arfs/arfs.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 127d9e2..85ba22e 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -119,6 +119,15 @@ func Open(ra io.ReaderAt) (*FS, error) {
 func (fsys *FS) Open(name string) (fs.File, error) {
 	name = sanitizePath(name)
 
+	if name == "" {
+		entries, err := fsys.ReadDir(".")
+		if err != nil {
+			return nil, err
+		}
+
+		return &dir{Entry: rootEntry(), entries: entries}, nil
+	}
+
 	e, ok := fsys.entries[name]
 	if !ok {
 		return nil, fs.ErrNotExist
@@ -131,6 +140,10 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 	name = sanitizePath(name)
 	if name != "" {
+		if _, ok := fsys.entries[name]; !ok {
+			return nil, fs.ErrNotExist
+		}
+
 		return nil, errors.New("ar does not support directories")
 	}
 
@@ -151,10 +164,7 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 	name = sanitizePath(name)
 
 	if name == "" {
-		return &Entry{
-			Filename: ".",
-			FileMode: fs.ModeDir,
-		}, nil
+		return rootEntry(), nil
 	}
 
 	e, ok := fsys.entries[name]
@@ -254,6 +264,45 @@ func (f *file) Close() error {
 	return nil
 }
 
+func rootEntry() *Entry {
+	return &Entry{
+		Filename: ".",
+		FileMode: fs.ModeDir,
+	}
+}
+
+type dir struct {
+	*Entry
+	entries []fs.DirEntry
+}
+
+func (d *dir) Stat() (fs.FileInfo, error) {
+	return d.Entry, nil
+}
+
+func (d *dir) Read([]byte) (int, error) {
+	return 0, &fs.PathError{Op: "read", Path: d.Filename, Err: errors.New("is a directory")}
+}
+
+func (d *dir) Close() error {
+	return nil
+}
+
+func (d *dir) ReadDir(n int) ([]fs.DirEntry, error) {
+	if n <= 0 || n > len(d.entries) {
+		if n > 0 && len(d.entries) == 0 {
+			return nil, io.EOF
+		}
+
+		n = len(d.entries)
+	}
+
+	entries := d.entries[:n:n]
+	d.entries = d.entries[n:]
+
+	return entries, nil
+}
+
 type Entry struct {
 	Filename  string
 	Timestamp int64
-- 
2.43.0


From a46399a1730b9a6e13f6c106f3b8399b232b6108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 19/62] fix: tarfs: names lost leading dots and surrounding
 spaces

---
 tarfs/tarfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..ca838c2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -281,7 +282,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(path.Clean("/"+name), "/")
 }
 
 type file struct {
-- 
2.43.0


From 8d8c47db70880ee5fcaea4f1799d36b370c9c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 20/62] fix: tarfs: the metadata of a directory was lost when
 entries below it followed

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index ca838c2..8ea3595 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -85,6 +85,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 199c10edb0719c564585a272943f4aeee8b25658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 21/62] fix: tarfs: symlink targets were rewritten, and those
 starting with a dot to another file

---
 tarfs/tarfs.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 8ea3595..1825a6d 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -73,14 +73,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
-- 
2.43.0


From 84c770a8038712f107381e8bc3c03fbe71fb224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 22/62] fix: tarfs: symlinks resolved to other files than on a
 POSIX system, and cycles overflowed the stack

---
 tarfs/tarfs.go | 93 +++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 1825a6d..73f7437 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -133,7 +133,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	for _, path := range paths {
 		d := dirents[path]
 
-		dir, err := resolve(&root, filepath.Dir(path))
+		dir, err := resolve(&root, filepath.Dir(path), true)
 		if err != nil {
 			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
 		}
@@ -145,7 +145,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 }
 
 func (fsys *FS) Open(name string) (fs.File, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -159,7 +159,7 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 }
 
 func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -189,7 +189,7 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 		return d.Info()
 	}
 
-	d, err := resolve(&fsys.root, name)
+	d, err := resolve(&fsys.root, name, true)
 	if err != nil {
 		return nil, err
 	}
@@ -205,16 +205,11 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return "", err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return "", fs.ErrNotExist
-	}
-
 	if d.Type()&fs.ModeSymlink == 0 {
 		return "", fs.ErrInvalid
 	}
@@ -226,52 +221,74 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
-	d, err := resolve(&fsys.root, filepath.Dir(name))
+	d, err := resolve(&fsys.root, name, false)
 	if err != nil {
 		return nil, err
 	}
 
-	d, found := d.findChild(filepath.Base(name))
-	if !found {
-		return nil, fs.ErrNotExist
-	}
-
 	return d.Info()
 }
 
-func resolve(root *dirent, name string) (*dirent, error) {
+// maxSymlinks is the number of symlinks followed before giving up on a path.
+const maxSymlinks = 40
+
+// resolve walks the path, following symlinks the way a POSIX system would with
+// the root of the archive as its root directory. A symlink in the last component
+// is only followed if followLast is set.
+func resolve(root *dirent, name string, followLast bool) (*dirent, error) {
 	d := root
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+	rest := sanitizePath(name)
+	for symlinks := 0; rest != ""; {
+		var component string
+		var more bool
+		component, rest, more = strings.Cut(rest, "/")
+
+		switch component {
+		case "", ".":
+			continue
+		case "..":
+			if !d.IsDir() {
+				return nil, fs.ErrNotExist
+			}
+
+			if d.parent != nil {
+				d = d.parent
+			}
 
-	for _, component := range strings.Split(name, "/") {
-		var found bool
-		d, found = d.findChild(component)
+			continue
+		}
+
+		child, found := d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
-			// Resolve the symlink.
-			target := d.Linkname
+		if child.Type()&fs.ModeSymlink != 0 && (followLast || more) {
+			symlinks++
+			if symlinks > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
+			}
+
+			if child.Linkname == "" {
+				return nil, fs.ErrNotExist
+			}
 
-			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
-				if err != nil {
-					return nil, err
-				}
+			// Relative targets start at the directory that holds the symlink.
+			if strings.HasPrefix(child.Linkname, "/") {
+				d = root
+			}
+
+			if more {
+				rest = child.Linkname + "/" + rest
 			} else {
-				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
-				if err != nil {
-					return nil, err
-				}
+				rest = child.Linkname
 			}
+
+			continue
 		}
+
+		d = child
 	}
 
 	return d, nil
-- 
2.43.0


From d6a1e41bbcac3e4765c9a4e0b00dbc2367a5156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 23/62] fix: tarfs: chains of hard links depended on map order,
 and cycles were accepted

---
 tarfs/tarfs.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 73f7437..e609695 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -103,10 +103,15 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	// Point hardlinks to the underlying dirent.
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			target := d
+			for hops := 0; target.Typeflag == tar.TypeLink; hops++ {
+				name := sanitizePath(target.Linkname)
+
+				var ok bool
+				target, ok = dirents[name]
+				if !ok || hops > len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
 			}
 
 			targetCopy := *target
-- 
2.43.0


From 0029422db7b7463f6dda76e5972675e4df8e6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 24/62] fix: tarfs: Open of the root or a directory without an
 entry panicked, and directory handles could not be listed

---
 tarfs/tarfs.go | 60 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index e609695..264c7d0 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -155,6 +155,10 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	if d.IsDir() {
+		return &dir{dirent: d, entries: d.entries()}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
@@ -169,16 +173,7 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
-	var children []fs.DirEntry
-	for _, child := range d.children {
-		children = append(children, child)
-	}
-
-	slices.SortFunc(children, func(a, b fs.DirEntry) int {
-		return strings.Compare(a.Name(), b.Name())
-	})
-
-	return children, nil
+	return d.entries(), nil
 }
 
 func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
@@ -320,6 +315,38 @@ func (f *file) Close() error {
 	return nil
 }
 
+type dir struct {
+	*dirent
+	entries []fs.DirEntry
+}
+
+func (d *dir) Stat() (fs.FileInfo, error) {
+	return d.Info()
+}
+
+func (d *dir) Read([]byte) (int, error) {
+	return 0, io.EOF
+}
+
+func (d *dir) Close() error {
+	return nil
+}
+
+func (d *dir) ReadDir(n int) ([]fs.DirEntry, error) {
+	if n <= 0 || n > len(d.entries) {
+		if n > 0 && len(d.entries) == 0 {
+			return nil, io.EOF
+		}
+
+		n = len(d.entries)
+	}
+
+	entries := d.entries[:n:n]
+	d.entries = d.entries[n:]
+
+	return entries, nil
+}
+
 var _ fs.DirEntry = &dirent{}
 
 type dirent struct {
@@ -334,6 +361,19 @@ func (d *dirent) findChild(name string) (*dirent, bool) {
 	return c, ok
 }
 
+func (d *dirent) entries() []fs.DirEntry {
+	var children []fs.DirEntry
+	for _, child := range d.children {
+		children = append(children, child)
+	}
+
+	slices.SortFunc(children, func(a, b fs.DirEntry) int {
+		return strings.Compare(a.Name(), b.Name())
+	})
+
+	return children
+}
+
 func (d *dirent) addChild(child *dirent) {
 	if d.children == nil {
 		d.children = make(map[string]*dirent)
-- 
2.43.0


From c4fed0c3cddb1de87ede81c47eef9b640db37a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 25/62] fix: tarfs: ReadDir of a file was an empty listing

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 264c7d0..98e253d 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -173,6 +173,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
+	}
+
 	return d.entries(), nil
 }
 
-- 
2.43.0


From 79e44ac0484476f31724e673e28f0a36bd9d83f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 26/62] fix: tarfs: GNU sparse files were listed as irregular

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 98e253d..fe8d397 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -404,7 +404,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From 890c2e3a73eb4dfc029a04ad6ebf3527262a8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 27/62] fix: tarfs: Create ignored that the end of the archive
 could not be written

---
 tarfs/create.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..e8617dc 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	if err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -78,5 +77,9 @@ func Create(dst io.Writer, src fs.FS) error {
 		}
 
 		return nil
-	})
+	}); err != nil {
+		return err
+	}
+
+	return tw.Close()
 }
-- 
2.43.0


From f9d2b64f22c097e23c5e501a61bb5ea1ffe0d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 28/62] fix: tarfs: an archive cut off after the extended
 header of an entry was accepted

---
 tarfs/tarfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index fe8d397..30e46d4 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -11,6 +11,7 @@ package tarfs
 
 import (
 	"archive/tar"
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -46,6 +47,17 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		h, err := tr.Next()
 		if err != nil {
 			if errors.Is(err, io.EOF) {
+				// Only zeros may follow the last entry, anything else is the start
+				// of an entry that has been cut off.
+				tail := make([]byte, max(r.offset-begin, 0))
+				if n, err := ra.ReadAt(tail, begin); n < len(tail) {
+					return nil, err
+				}
+
+				if len(bytes.Trim(tail, "\x00")) > 0 {
+					return nil, io.ErrUnexpectedEOF
+				}
+
 				break
 			}
 
-- 
2.43.0


From 0e9b061744b36f103639a6971e4a98a59c0cf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 29/62] fix: erofs: invalid block sizes were accepted, and
 small ones panicked

---
 erofs/reader.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..e8729dc 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -51,6 +51,10 @@ const (
 
 	// Max file name length.
 	MaxNameLen = 255
+
+	// Block sizes the format allows, in bit shift.
+	MinBlockSizeBits = 9
+	MaxBlockSizeBits = 16
 )
 
 // Bit definitions for Inode*::Format.
@@ -228,6 +232,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if bits := i.sb.BlockSizeBits; bits < MinBlockSizeBits || bits > MaxBlockSizeBits {
+		return fmt.Errorf("unsupported block size: 1 << %d", bits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
@@ -256,8 +264,14 @@ func (i *Image) verifyChecksum() error {
 	table := crc32.MakeTable(crc32.Castagnoli)
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
+	// The checksum covers the superblock and the rest of its block.
+	size := int64(i.BlockSize())
+	if size > SuperBlockOffset {
+		size -= SuperBlockOffset
+	}
+
 	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	if buf, err := i.bytesAt(off, size-int64(binary.Size(i.sb))); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From 0ce3e4f05a72fe5fbd271a00a9e64ec4130f60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 30/62] fix: erofs: the last bytes of an image were refused
 when the reader returns io.EOF with them

---
 erofs/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index e8729dc..105d605 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -460,7 +460,11 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
+	// A reader may return io.EOF along with the last bytes.
+	if m, err := i.src.ReadAt(buf, off); m < len(buf) {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 	return buf, nil
-- 
2.43.0


From ed86e46874f43fd75a84dca7bc0151f6e5397408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 31/62] fix: erofs: files of a truncated image read as shorter
 files without an error

---
 erofs/reader.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 105d605..2c78b3c 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -633,7 +633,7 @@ func (ino *Inode) GID() uint32 {
 func (ino *Inode) Data() (io.Reader, error) {
 	switch dataLayout := ino.DataLayout(); dataLayout {
 	case InodeDataLayoutFlatPlain:
-		return io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), nil
+		return &dataReader{io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size)), ino.size}, nil
 
 	case InodeDataLayoutFlatInline:
 		readers := make([]io.Reader, 0, 2)
@@ -642,13 +642,28 @@ func (ino *Inode) Data() (io.Reader, error) {
 			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
 		}
 		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
-		return io.MultiReader(readers...), nil
+		return &dataReader{io.MultiReader(readers...), ino.size}, nil
 
 	default:
 		return nil, errors.New("unsupported data layout")
 	}
 }
 
+// dataReader reports the end of an image that comes before the end of the data.
+type dataReader struct {
+	r         io.Reader
+	remaining uint64
+}
+
+func (r *dataReader) Read(p []byte) (int, error) {
+	n, err := r.r.Read(p)
+	r.remaining -= uint64(n)
+	if errors.Is(err, io.EOF) && r.remaining > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 // blockData represents the information of the data in a block.
 type blockData struct {
 	// base indicates the data offset within the image.
-- 
2.43.0


From 397885bd5faf89ce8557dfec61010ac07a110e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 32/62] fix: erofs: sizes beyond 63 bits became negative

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 2c78b3c..be1b41c 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -433,6 +434,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > uint64(math.MaxInt64-blockSize) {
+		return Inode{}, fmt.Errorf("invalid size at inode %d: %d", nid, inode.size)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
-- 
2.43.0


From 5961509493011b76314ecf03168eaecc3c52cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 33/62] fix: erofs: directory blocks with much padding after
 the last name were refused

---
 erofs/reader.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index be1b41c..f77d01b 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -735,9 +735,16 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 
 		nameLen = uint32(next.NameOff - d.NameOff)
 	}
-	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen || nameLen == 0 {
+	if uint32(d.NameOff)+nameLen > block.size || nameLen == 0 {
 		return nil, errors.New("corrupted dirent")
 	}
+	if nameLen > MaxNameLen {
+		if !lastDirent {
+			return nil, errors.New("corrupted dirent")
+		}
+		// The padding does not count, read just enough to notice the end.
+		nameLen = min(nameLen, MaxNameLen+1)
+	}
 	name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), int64(nameLen))
 	if err != nil {
 		return nil, err
@@ -751,6 +758,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 		if n != -1 {
 			name = name[:n]
 		}
+		if len(name) > MaxNameLen {
+			return nil, errors.New("corrupted dirent")
+		}
 	}
 	return name, nil
 }
-- 
2.43.0


From 77ef76210616c8cae0120d725f7acc0308fefedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 34/62] fix: erofs: entry names with a slash were accepted

---
 erofs/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index f77d01b..9322398 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -762,6 +762,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			return nil, errors.New("corrupted dirent")
 		}
 	}
+	if bytes.IndexByte(name, '/') != -1 {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From 1643a9b05849eedba6c803d8bb35df1708cd5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 35/62] fix: erofs: long symlink targets were cut off at the
 block size

---
 erofs/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 9322398..c2ebfb1 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -53,6 +53,9 @@ const (
 	// Max file name length.
 	MaxNameLen = 255
 
+	// Max symlink target length, a page without the terminating NUL.
+	MaxSymlinkLen = 4095
+
 	// Block sizes the format allows, in bit shift.
 	MinBlockSizeBits = 9
 	MaxBlockSizeBits = 16
@@ -921,8 +924,8 @@ func (ino *Inode) Readlink() (string, error) {
 	} else {
 		// This matches Linux's behaviour in fs/namei.c:page_get_link() and
 		// include/linux/namei.h:nd_terminate_link().
-		if size > int64(ino.image.BlockSize())-1 {
-			size = int64(ino.image.BlockSize()) - 1
+		if size > MaxSymlinkLen {
+			size = MaxSymlinkLen
 		}
 	}
 	target, err := ino.image.bytesAt(off, size)
-- 
2.43.0


From 8baf050cf4037d6d134a094dbeaf20bc591328da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 36/62] fix: erofs: the setuid, setgid and sticky bits and the
 device bit of character devices were not reported

---
 erofs/reader.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index c2ebfb1..3195082 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -608,7 +608,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
@@ -623,6 +623,16 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeSymlink
 	}
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	return mode
 }
 
-- 
2.43.0


From 08668421fe37d6b31a801123ede3b8a7c0a4774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 37/62] fix: erofs: modification times lost their nanoseconds

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..e3130b8 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -324,7 +324,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From 3d15109db3487669aaf67640836a8ec5a48cceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 38/62] fix: erofs: an invalid inode panicked

---
 erofs/erofs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index e3130b8..7253a73 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -241,7 +241,8 @@ type dirEntry struct {
 	typ           uint8
 	nid           uint64
 	readInodeOnce sync.Once
-	inode         *Inode
+	inode         Inode
+	inodeErr      error
 }
 
 func (de *dirEntry) Name() string {
@@ -295,14 +296,10 @@ func (de *dirEntry) lookup(name string) (*dirEntry, error) {
 
 func (de *dirEntry) getInode() (Inode, error) {
 	de.readInodeOnce.Do(func() {
-		ino, err := de.image.Inode(de.nid)
-		if err != nil {
-			panic(err)
-		}
-		de.inode = &ino
+		de.inode, de.inodeErr = de.image.Inode(de.nid)
 	})
 
-	return *de.inode, nil
+	return de.inode, de.inodeErr
 }
 
 type fileInfo struct {
-- 
2.43.0


From e0c0f8bd3e18fa62adf3c7a7f75d4da9c884384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 39/62] fix: erofs: symlinks resolved to other files than on a
 POSIX system, and cycles overflowed the stack

---
 erofs/erofs.go | 75 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7253a73..d542bd6 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -27,6 +27,7 @@ package erofs
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 	"path/filepath"
@@ -166,11 +167,44 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 	}, nil
 }
 
+// maxSymlinks is the number of symlinks followed before giving up on a path.
+const maxSymlinks = 40
+
+// resolve walks the path, following symlinks the way a POSIX system would with
+// the root of the image as its root directory. A symlink in the last component
+// is not followed if noResolveLastSymlink is set.
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
+	// The directories leading to the current one.
+	parents := []*dirEntry{}
 	de := fsys.root
 
-	components := splitPath(name)
-	for i, comp := range components {
+	rest := filepath.ToSlash(name)
+	for symlinks := 0; rest != ""; {
+		var comp string
+		var more bool
+		comp, rest, more = strings.Cut(rest, "/")
+
+		switch comp {
+		case "", ".":
+			continue
+		case "..":
+			ino, err := de.getInode()
+			if err != nil {
+				return nil, err
+			}
+
+			if !ino.IsDir() {
+				return nil, fs.ErrNotExist
+			}
+
+			if len(parents) > 0 {
+				de = parents[len(parents)-1]
+				parents = parents[:len(parents)-1]
+			}
+
+			continue
+		}
+
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
@@ -181,25 +215,36 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+		if ino.IsSymlink() && (!noResolveLastSymlink || more) {
+			symlinks++
+			if symlinks > maxSymlinks {
+				return nil, fmt.Errorf("too many levels of symbolic links: %s", name)
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
-			link = filepath.Clean(link)
 
+			if link == "" {
+				return nil, fs.ErrNotExist
+			}
+
+			// Relative targets start at the directory that holds the symlink.
 			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
+				parents, de = parents[:0], fsys.root
 			}
 
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
+			if more {
+				rest = link + "/" + rest
+			} else {
+				rest = link
 			}
+
+			continue
 		}
 
+		parents = append(parents, de)
 		de = child
 	}
 	return de, nil
@@ -331,13 +376,3 @@ func (fi *fileInfo) IsDir() bool {
 func (fi *fileInfo) Sys() any {
 	return &fi.inode
 }
-
-func splitPath(path string) []string {
-	var components []string
-	for _, part := range strings.Split(filepath.ToSlash(path), "/") {
-		if part != "" {
-			components = append(components, part)
-		}
-	}
-	return components
-}
-- 
2.43.0


From 164d3e1270e16356d096535779425bb52833e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 40/62] fix: erofs: the root directory had an empty name

---
 erofs/erofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index d542bd6..2668ef9 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -58,6 +58,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
-- 
2.43.0


From 34bc7037cd16433113ae6d3e51a4744deec5139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 41/62] fix: erofs: directory handles could not be listed

---
 erofs/erofs.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 2668ef9..8098768 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -71,6 +71,20 @@ func (fsys *Filesystem) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	ino, err := de.getInode()
+	if err != nil {
+		return nil, err
+	}
+
+	if ino.IsDir() {
+		entries, err := fsys.ReadDir(name)
+		if err != nil {
+			return nil, err
+		}
+
+		return &dir{de: de, entries: entries}, nil
+	}
+
 	return &file{
 		image: fsys.image,
 		de:    de,
@@ -281,6 +295,38 @@ func (f *file) Stat() (fs.FileInfo, error) {
 	return f.de.Info()
 }
 
+type dir struct {
+	de      *dirEntry
+	entries []fs.DirEntry
+}
+
+func (d *dir) Read([]byte) (int, error) {
+	return 0, &fs.PathError{Op: "read", Path: d.de.name, Err: errors.New("is a directory")}
+}
+
+func (d *dir) Close() error {
+	return nil
+}
+
+func (d *dir) Stat() (fs.FileInfo, error) {
+	return d.de.Info()
+}
+
+func (d *dir) ReadDir(n int) ([]fs.DirEntry, error) {
+	if n <= 0 || n > len(d.entries) {
+		if n > 0 && len(d.entries) == 0 {
+			return nil, io.EOF
+		}
+
+		n = len(d.entries)
+	}
+
+	entries := d.entries[:n:n]
+	d.entries = d.entries[n:]
+
+	return entries, nil
+}
+
 type dirEntry struct {
 	image         *Image
 	name          string
-- 
2.43.0


From f84b0255ed80752a71e428b3ddbf69ed26d75885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 42/62] fix: erofs: empty files were written with a layout that
 is not valid for them

---
 erofs/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..1be0075 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,8 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		// There is no inline data in an empty file.
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From 88662b472160067cbb2bd3f1923a2c01536d282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 43/62] fix: erofs: Create wrote directories out of order, and
 without correct dot and dot-dot entries

---
 erofs/writer.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1be0075..1f52faa 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"time"
 )
 
@@ -335,16 +336,30 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
-
-		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+		children := map[string]string{
+			".":  path,
+			"..": filepath.Dir(path),
+		}
+		types := map[string]fs.FileMode{
+			".":  fs.ModeDir,
+			"..": fs.ModeDir,
 		}
 
 		for _, de := range entries {
-			path := filepath.Clean(filepath.Join(path, de.Name()))
+			children[de.Name()] = filepath.Clean(filepath.Join(path, de.Name()))
+			types[de.Name()] = de.Type()
+		}
+
+		// All the entries, "." and ".." included, must be sorted.
+		var names []string
+		for name := range children {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+
+		var dirents []Dirent
+		for _, name := range names {
+			path := children[name]
 
 			ino, ok := w.inodes[path]
 			if !ok {
@@ -363,9 +378,8 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 
 			dirents = append(dirents, Dirent{
 				Nid:      uint64(nid),
-				FileType: uint8(fileTypeFromFileMode(de.Type())),
+				FileType: uint8(fileTypeFromFileMode(types[name])),
 			})
-			names = append(names, de.Name())
 		}
 
 		buf, err := encodeDirents(dirents, names)
-- 
2.43.0


From 9792633b4274223dc9f17ce9a7e33d3cee0b631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 44/62] fix: erofs: Create wrote names the format does not
 allow

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1f52faa..94c5a0d 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -20,6 +20,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"time"
 )
 
@@ -346,6 +347,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		}
 
 		for _, de := range entries {
+			if len(de.Name()) > MaxNameLen || strings.ContainsAny(de.Name(), "/\x00") {
+				return nil, 0, fmt.Errorf("file name not supported: %q", de.Name())
+			}
+
 			children[de.Name()] = filepath.Clean(filepath.Join(path, de.Name()))
 			types[de.Name()] = de.Type()
 		}
-- 
2.43.0


From 05da77495b42c77d01b15d215ad1223892273122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 45/62] fix: erofs: Create did not notice that a file has
 another size than its inode says

---
 erofs/writer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 94c5a0d..d9b957e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -221,11 +221,14 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
 			}
+			if n != sizeOf(ino) {
+				return fmt.Errorf("size of %q changed: got %d bytes, expected %d", path, n, sizeOf(ino))
+			}
 		}
 	}
 
@@ -256,11 +259,14 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
 		}
+		if n != sizeOf(ino) {
+			return fmt.Errorf("size of %q changed: got %d bytes, expected %d", path, n, sizeOf(ino))
+		}
 	}
 
 	return nil
@@ -544,6 +550,18 @@ func isInlined(ino any) bool {
 	return bitRange(format, InodeDataLayoutBit, InodeDataLayoutBits) == InodeDataLayoutFlatInline
 }
 
+// sizeOf returns the data size of the inode.
+func sizeOf(ino any) int64 {
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return int64(ino.Size)
+	case InodeExtended:
+		return int64(ino.Size)
+	default:
+		return -1
+	}
+}
+
 func setBits(value, newValue, bit, bits uint16) uint16 {
 	mask := uint16((1<<bits)-1) << bit
 	return (value & ^mask) | ((newValue << bit) & mask)
-- 
2.43.0


From 3e61ef4d3b99729d31847ee880ee030231c529ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 46/62] fix: erofs: the superblock checksum was wrong when
 overwriting a file

---
 erofs/writer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index d9b957e..a86a8a7 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -83,7 +83,15 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to calculate superblock checksum: %w", err)
 	}
 
-	if err := binary.Write(io.NewOffsetWriter(w.dst, SuperBlockOffset), binary.LittleEndian, &sb); err != nil {
+	var buf bytes.Buffer
+	if err := binary.Write(&buf, binary.LittleEndian, &sb); err != nil {
+		return fmt.Errorf("failed to marshal superblock: %w", err)
+	}
+
+	// The checksum covers the rest of the block as well, which may not be empty.
+	buf.Write(make([]byte, BlockSize-SuperBlockOffset-buf.Len()))
+
+	if _, err := w.dst.WriteAt(buf.Bytes(), SuperBlockOffset); err != nil {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
-- 
2.43.0


From b12aba62522ba52fb8c41f055c563b0b3dc463e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 47/62] fix: erofs: Create wrote character devices and
 irregular files as regular files

---
 erofs/constants.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..dd6e97f 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -68,13 +68,13 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
 	case fs.ModeSocket:
 		stMode |= S_IFSOCK
-	default:
+	case 0:
 		stMode |= S_IFREG
 	}
 
-- 
2.43.0


From 09c42259788320933a50555da903cfaa1bea4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:58 +0000
Subject: [PATCH 48/62] fix: erofs: link counts overflowed, and unset times
 were the epoch or the year 1 depending on the owner

---
 erofs/writer.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index a86a8a7..923b7ea 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -432,9 +432,9 @@ func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
 	// Can we use a compact inode?
-	compact := fi.Size() <= math.MaxUint32 &&
+	compact := fi.Size() <= math.MaxUint32 && nlink <= math.MaxUint16 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
-		fi.ModTime() == time.Time{}
+		fi.ModTime().IsZero()
 
 	if compact {
 		return InodeCompact{
@@ -446,14 +446,20 @@ func toInode(fi fs.FileInfo, nlink int) any {
 		}
 	}
 
+	// An unset time is stored as the epoch, as it is in a compact inode.
+	mtime := fi.ModTime()
+	if mtime.IsZero() {
+		mtime = time.Unix(0, 0)
+	}
+
 	return InodeExtended{
 		Format:    setBits(0, InodeLayoutExtended, InodeLayoutBit, InodeLayoutBits),
 		Mode:      statModeFromFileMode(fi.Mode()),
 		Nlink:     uint32(nlink),
 		UID:       uint32(uid),
 		GID:       uint32(gid),
-		Mtime:     uint64(fi.ModTime().Unix()),
-		MtimeNsec: uint32(fi.ModTime().Nanosecond()),
+		Mtime:     uint64(mtime.Unix()),
+		MtimeNsec: uint32(mtime.Nanosecond()),
 	}
 }
 
-- 
2.43.0


From 506d3bcdfe05b4e7bde44158d01ec528298e43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 49/62] fix: erofs: owners outside 32 bits wrapped around

---
 erofs/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 923b7ea..54cfc9f 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -293,6 +293,10 @@ func (w *writer) populateInodes() error {
 			return err
 		}
 
+		if uid, gid := getOwner(fi); int64(uint32(uid)) != int64(uid) || int64(uint32(gid)) != int64(gid) {
+			return fmt.Errorf("owner of %q not supported: %d:%d", path, uid, gid)
+		}
+
 		nlink := 1
 		if fi.IsDir() {
 			entries, err := fs.ReadDir(w.src, path)
-- 
2.43.0


From e6aec865d55ed4f0525de075516d12501699e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 50/62] fix: erofs: Create lost the owners of files from
 another EROFS image

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..c946d54 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -26,6 +26,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 		uid = int(stat.Uid)
 		gid = int(stat.Gid)
 
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
+
 	case *tar.Header:
 		hdr := fi.Sys().(*tar.Header)
 
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..406d298 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -19,6 +19,12 @@ import (
 
 func getOwner(fi fs.FileInfo) (uid, gid int) {
 	switch fi.Sys().(type) {
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
+
 	case *tar.Header:
 		hdr := fi.Sys().(*tar.Header)
 
-- 
2.43.0


From ae31f0116b7bc49a229440ea9404700a5eba58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 51/62] fix: erofs: Create wrote symlink targets that are too
 long to read back

---
 erofs/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 54cfc9f..3544a01 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -422,6 +422,9 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		if err != nil {
 			return nil, 0, fmt.Errorf("failed to read symlink target: %w", err)
 		}
+		if len(target) > MaxSymlinkLen {
+			return nil, 0, fmt.Errorf("symlink target of %q too long", path)
+		}
 
 		return io.NopCloser(bytes.NewReader([]byte(target))), int64(len(target)), nil
 
-- 
2.43.0


From ff0695d688081e668d78eefbc52fa9c70e66de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 52/62] fix: erofs: do not deliver the inline tail after blocks
 that are cut short

---
 erofs/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 3195082..eafa384 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -656,7 +656,9 @@ func (ino *Inode) Data() (io.Reader, error) {
 		readers := make([]io.Reader, 0, 2)
 		idataSize := ino.size & (uint64(ino.image.BlockSize()) - 1)
 		if ino.size > idataSize {
-			readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize)))
+			blocks := io.NewSectionReader(ino.image.src, int64(ino.dataOff), int64(ino.size-idataSize))
+			// The tail must not follow blocks that are cut short.
+			readers = append(readers, &dataReader{blocks, ino.size - idataSize})
 		}
 		readers = append(readers, io.NewSectionReader(ino.image.src, int64(ino.idataOff), int64(idataSize)))
 		return &dataReader{io.MultiReader(readers...), ino.size}, nil
-- 
2.43.0


From 37a34556b155df4e1c0a99676474fae850ebfb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 53/62] fix: erofs: store a time at the epoch like an unset
 one, so that copies do not change

---
 erofs/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 3544a01..1ef4217 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -438,10 +438,10 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-	// Can we use a compact inode?
+	// Can we use a compact inode? It has no time of its own and reads as the epoch.
 	compact := fi.Size() <= math.MaxUint32 && nlink <= math.MaxUint16 &&
 		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
-		fi.ModTime().IsZero()
+		(fi.ModTime().IsZero() || fi.ModTime().Equal(time.Unix(0, 0)))
 
 	if compact {
 		return InodeCompact{
-- 
2.43.0


From 4a9a4adf0e3a27ebd59142dbc87356ebc8d3a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 54/62] fix: erofs: read symlink targets that are longer than a
 block and end inline

---
 erofs/reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index eafa384..416c832 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -928,9 +928,18 @@ func (ino *Inode) Readlink() (string, error) {
 	off := int64(ino.dataOff)
 	size := int64(ino.size)
 	if ino.idataOff != 0 {
-		// Inline symlink data shouldn't cross block boundary.
+		// A target longer than a block starts in the data blocks, only its tail
+		// is inline.
 		if ino.blocks > 1 {
-			return "", fmt.Errorf("inline data cross block boundary at inode %d", ino.Nid())
+			r, err := ino.Data()
+			if err != nil {
+				return "", err
+			}
+			target, err := io.ReadAll(io.LimitReader(r, MaxSymlinkLen))
+			if err != nil {
+				return "", err
+			}
+			return string(target), nil
 		}
 		off = int64(ino.idataOff)
 	} else {
-- 
2.43.0


From d825a3a73298ce915a5d3841586f619d13df02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 55/62] fix: erofs: find the entries of a directory that is
 stored at the very start of the image

---
 erofs/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 416c832..c7e8388 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -843,7 +843,7 @@ func (ino *Inode) Lookup(name string) (Dirent, error) {
 		}
 	}
 
-	if targetBlock.base == 0 {
+	if targetNumDirents == 0 {
 		// The target block was not found.
 		return Dirent{}, fs.ErrNotExist
 	}
-- 
2.43.0


From caba53f6369d9c522bdccb0f13974f3892ccb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 56/62] fix: refuse sources too large for the 32-bit block
 numbers of an image

---
 erofs/writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1ef4217..4e3032e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -29,6 +29,8 @@ const (
 	BlockSizeBits     = 12
 	InodeSlotSize     = 1 << InodeSlotBits
 	MaxInlineDataSize = BlockSize / 4
+	// maxImageSize is the size of the largest image, blocks are counted in 32 bits.
+	maxImageSize = math.MaxUint32 * BlockSize
 )
 
 // Create creates an EROFS filesystem image from the source filesystem and writes
@@ -115,6 +117,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
+		if size > maxImageSize-metaSize-dataSize {
+			return metaSize, dataSize, fmt.Errorf("no room for %q in an image: %d bytes", path, size)
+		}
+
 		// There is no inline data in an empty file.
 		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
@@ -173,6 +179,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 
 	metaSize = roundUp(metaSize, BlockSize)
 
+	if BlockSize+metaSize+dataSize > maxImageSize {
+		return metaSize, dataSize, fmt.Errorf("image too large: %d bytes", BlockSize+metaSize+dataSize)
+	}
+
 	dataBlockAddr := 1 + (metaSize / BlockSize)
 
 	// fix up the raw block addresses now that we know the total size of the
-- 
2.43.0


From 6d5ecc0f179ec99d40c7a35daaca617a674cde9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 57/62] fix: ar times and sizes over 31 bits could not be read
 on 32-bit platforms

---
 arfs/arfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 85ba22e..d6dd902 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -210,11 +210,11 @@ func parseArEntry(line []byte) (*Entry, error) {
 			continue
 		}
 
-		intValue, err := strconv.Atoi(input)
+		intValue, err := strconv.ParseInt(input, 10, 64)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse entry value: %w", err)
 		}
-		*target = int64(intValue)
+		*target = intValue
 	}
 
 	if e.FileSize < 0 {
-- 
2.43.0


From c3cb987a96b78fd3ceabf1ebf2093830f7566e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 58/62] fix: erofs owners over 31 bits were refused on 32-bit
 platforms

---
 erofs/owner_unix.go    | 14 +++++++-------
 erofs/owner_windows.go | 10 +++++-----
 erofs/writer.go        |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index c946d54..96c87f5 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -18,25 +18,25 @@ import (
 	"syscall"
 )
 
-func getOwner(fi fs.FileInfo) (uid, gid int) {
+func getOwner(fi fs.FileInfo) (uid, gid int64) {
 	switch fi.Sys().(type) {
 	case *syscall.Stat_t:
 		stat := fi.Sys().(*syscall.Stat_t)
 
-		uid = int(stat.Uid)
-		gid = int(stat.Gid)
+		uid = int64(stat.Uid)
+		gid = int64(stat.Gid)
 
 	case *Inode:
 		ino := fi.Sys().(*Inode)
 
-		uid = int(ino.UID())
-		gid = int(ino.GID())
+		uid = int64(ino.UID())
+		gid = int64(ino.GID())
 
 	case *tar.Header:
 		hdr := fi.Sys().(*tar.Header)
 
-		uid = hdr.Uid
-		gid = hdr.Gid
+		uid = int64(hdr.Uid)
+		gid = int64(hdr.Gid)
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index 406d298..92f59e6 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -17,19 +17,19 @@ import (
 	"io/fs"
 )
 
-func getOwner(fi fs.FileInfo) (uid, gid int) {
+func getOwner(fi fs.FileInfo) (uid, gid int64) {
 	switch fi.Sys().(type) {
 	case *Inode:
 		ino := fi.Sys().(*Inode)
 
-		uid = int(ino.UID())
-		gid = int(ino.GID())
+		uid = int64(ino.UID())
+		gid = int64(ino.GID())
 
 	case *tar.Header:
 		hdr := fi.Sys().(*tar.Header)
 
-		uid = hdr.Uid
-		gid = hdr.Gid
+		uid = int64(hdr.Uid)
+		gid = int64(hdr.Gid)
 	}
 
 	return
diff --git a/erofs/writer.go b/erofs/writer.go
index 4e3032e..1f43423 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -303,7 +303,7 @@ func (w *writer) populateInodes() error {
 			return err
 		}
 
-		if uid, gid := getOwner(fi); int64(uint32(uid)) != int64(uid) || int64(uint32(gid)) != int64(gid) {
+		if uid, gid := getOwner(fi); int64(uint32(uid)) != uid || int64(uint32(gid)) != gid {
 			return fmt.Errorf("owner of %q not supported: %d:%d", path, uid, gid)
 		}
 
-- 
2.43.0


From 9d1f991034d0fa0c4d23bf79995a8258352ca147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 59/62] fix: erofs: directory entries of a source that changed
 had types other than their inodes

---
 erofs/writer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 1f43423..e7da956 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -48,6 +48,7 @@ type writer struct {
 	src        fs.FS
 	dst        io.WriterAt
 	inodes     map[string]any
+	modes      map[string]fs.FileMode
 	inodeOrder []string
 }
 
@@ -292,6 +293,7 @@ func (w *writer) writeData() error {
 
 func (w *writer) populateInodes() error {
 	w.inodes = map[string]any{}
+	w.modes = map[string]fs.FileMode{}
 
 	err := fs.WalkDir(w.src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
@@ -318,6 +320,7 @@ func (w *writer) populateInodes() error {
 		}
 
 		w.inodes[path] = toInode(fi, nlink)
+		w.modes[path] = fi.Mode()
 		w.inodeOrder = append(w.inodeOrder, path)
 
 		return nil
@@ -369,10 +372,6 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			".":  path,
 			"..": filepath.Dir(path),
 		}
-		types := map[string]fs.FileMode{
-			".":  fs.ModeDir,
-			"..": fs.ModeDir,
-		}
 
 		for _, de := range entries {
 			if len(de.Name()) > MaxNameLen || strings.ContainsAny(de.Name(), "/\x00") {
@@ -380,7 +379,6 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			}
 
 			children[de.Name()] = filepath.Clean(filepath.Join(path, de.Name()))
-			types[de.Name()] = de.Type()
 		}
 
 		// All the entries, "." and ".." included, must be sorted.
@@ -411,7 +409,7 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 
 			dirents = append(dirents, Dirent{
 				Nid:      uint64(nid),
-				FileType: uint8(fileTypeFromFileMode(types[name])),
+				FileType: uint8(fileTypeFromFileMode(w.modes[path])),
 			})
 		}
 
-- 
2.43.0


From 989e1c3bdfb64b8d979ff789cf99174483c520b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 60/62] fix: erofs: Create trusted the type of entries that
 became something else

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index e7da956..38f7e80 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -305,6 +305,11 @@ func (w *writer) populateInodes() error {
 			return err
 		}
 
+		// It may have become something else since it was listed.
+		if fi.Mode().Type() != d.Type().Type() {
+			return fmt.Errorf("type of %q changed: got %s, expected %s", path, fi.Mode().Type(), d.Type().Type())
+		}
+
 		if uid, gid := getOwner(fi); int64(uint32(uid)) != uid || int64(uint32(gid)) != gid {
 			return fmt.Errorf("owner of %q not supported: %d:%d", path, uid, gid)
 		}
-- 
2.43.0


From 75598277527eabc9665e83d116df19f242c19652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 61/62] fix: tar: Create recorded entries that became something
 else as a mixture of both

---
 tarfs/create.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tarfs/create.go b/tarfs/create.go
index e8617dc..acf81ba 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -12,6 +12,7 @@ package tarfs
 import (
 	"archive/tar"
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
 
@@ -38,6 +39,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// It may have become something else since it was listed.
+		if fi.Mode().Type() != d.Type().Type() {
+			return fmt.Errorf("type of %q changed: got %s, expected %s", path, fi.Mode().Type(), d.Type().Type())
+		}
+
 		var link string
 		if d.Type()&fs.ModeSymlink != 0 {
 			linkFS, ok := src.(archivefs.ReadLinkFS)
-- 
2.43.0


From 4e673a08979bb805bd9548c40163b6f58dc74e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 62/62] fix: tarfs: open paths of many components in linear
 time

Every component of every path was looked up from the root by its full path,
so that an archive of a few kilobytes could take minutes to open.
---
 tarfs/tarfs.go | 180 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 117 insertions(+), 63 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 30e46d4..2fd22fb 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -39,7 +39,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	r := &readerWithOffset{ra: ra}
 	tr := tar.NewReader(r)
 
-	dirents := map[string]*dirent{}
+	root := &dirent{}
+	root.implyDir(".")
+
+	var links []*dirent
 	for {
 		// round to next 512 byte boundary.
 		begin := (r.offset + 511) &^ 511
@@ -85,80 +88,59 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Create a default directory entry for each parent directory.
-		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
-			// Create a default directory entry if it doesn't exist.
-			// Don't worry if we see one later, we'll just overwrite it.
-			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
-				continue
-			}
+		size := r.offset - begin
 
-			dirents[dir] = &dirent{
-				Header: tar.Header{
-					Typeflag: tar.TypeDir,
-					Name:     dir,
-					Mode:     0o755,
-				},
-			}
+		d := root.place(h.Name)
+		d.Header = *h
+		d.data = func() io.Reader {
+			return io.NewSectionReader(ra, begin, size)
 		}
 
-		size := r.offset - begin
-
-		dirents[h.Name] = &dirent{
-			Header: *h,
-			data: func() io.Reader {
-				return io.NewSectionReader(ra, begin, size)
-			},
+		if h.Typeflag == tar.TypeLink || h.Typeflag == tar.TypeSymlink {
+			links = append(links, d)
 		}
 	}
 
 	// Point hardlinks to the underlying dirent.
-	for path, d := range dirents {
-		if d.Typeflag == tar.TypeLink {
-			target := d
-			for hops := 0; target.Typeflag == tar.TypeLink; hops++ {
-				name := sanitizePath(target.Linkname)
-
-				var ok bool
-				target, ok = dirents[name]
-				if !ok || hops > len(dirents) {
-					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
-				}
-			}
+	for _, d := range links {
+		var chain []*dirent
+		for d.Typeflag == tar.TypeLink {
+			name := sanitizePath(d.Linkname)
 
-			targetCopy := *target
-			targetCopy.Header.Name = path
-			dirents[path] = &targetCopy
+			chain = append(chain, d)
+
+			var ok bool
+			if d, ok = root.lookup(name); !ok || len(chain) > len(links) {
+				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			}
 		}
-	}
 
-	var paths []string
-	for path := range dirents {
-		paths = append(paths, path)
+		for _, link := range chain {
+			name := link.Header.Name
+			link.Header, link.data = d.Header, d.data
+			link.Header.Name = name
+		}
 	}
 
-	slices.Sort(paths)
-
-	root := dirent{
-		Header: tar.Header{
-			Typeflag: tar.TypeDir,
-			Name:     ".",
-			Mode:     0o755,
-		},
-	}
+	// What was placed below a symlink belongs to the directory it points to.
+	slices.SortFunc(links, func(a, b *dirent) int {
+		return strings.Compare(a.Header.Name, b.Header.Name)
+	})
 
-	for _, path := range paths {
-		d := dirents[path]
+	for _, link := range links {
+		if link.Typeflag != tar.TypeSymlink || len(link.children) == 0 {
+			continue
+		}
 
-		dir, err := resolve(&root, filepath.Dir(path), true)
+		dir, err := resolve(root, link.Header.Name, true)
 		if err != nil {
-			return nil, fmt.Errorf("failed to resolve directory %q: %w", filepath.Dir(path), err)
+			return nil, fmt.Errorf("failed to resolve directory %q: %w", link.Header.Name, err)
 		}
 
-		dir.addChild(d)
+		dir.adopt(link)
 	}
 
-	return &FS{root: root}, nil
+	return &FS{root: *root}, nil
 }
 
 func (fsys *FS) Open(name string) (fs.File, error) {
@@ -390,20 +372,92 @@ func (d *dirent) entries() []fs.DirEntry {
 	return children
 }
 
-func (d *dirent) addChild(child *dirent) {
+func (d *dirent) addChild(name string) *dirent {
 	if d.children == nil {
 		d.children = make(map[string]*dirent)
 	}
 
-	c := *child
-	c.parent = d
+	c := &dirent{parent: d}
+	d.children[name] = c
+
+	return c
+}
+
+// place returns the dirent with the given path, which is added if there is none.
+func (d *dirent) place(name string) *dirent {
+	for i := 0; ; {
+		n := strings.IndexByte(name[i:], '/')
+
+		component := name[i:]
+		if n >= 0 {
+			component = name[i : i+n]
+		}
+
+		c, ok := d.findChild(component)
+		if !ok {
+			c = d.addChild(component)
+		}
+
+		if n < 0 {
+			return c
+		}
+
+		d = c
+		i += n
+
+		// Create a default directory entry if it doesn't exist.
+		// Don't worry if we see one later, we'll just overwrite it.
+		if d.Typeflag != tar.TypeDir {
+			d.implyDir(name[:i])
+		}
+
+		i++
+	}
+}
+
+func (d *dirent) implyDir(name string) {
+	d.Header = tar.Header{
+		Typeflag: tar.TypeDir,
+		Name:     name,
+		Mode:     0o755,
+	}
+	d.data = nil
+}
+
+// lookup finds the dirent with the given path, symlinks are not followed.
+func (d *dirent) lookup(name string) (*dirent, bool) {
+	for {
+		component, rest, more := strings.Cut(name, "/")
+
+		c, ok := d.findChild(component)
+		if !ok || !more {
+			return c, ok
+		}
 
-	// do we already have a child with the same name?
-	if existing, ok := d.children[c.Name()]; ok {
-		c.children = existing.children
+		d, name = c, rest
 	}
+}
+
+// adopt moves the children of another dirent to this one.
+func (d *dirent) adopt(from *dirent) {
+	children := from.children
+	from.children = nil
 
-	d.children[c.Name()] = &c
+	for name, child := range children {
+		c, ok := d.findChild(name)
+		if !ok {
+			c = d.addChild(name)
+		}
+
+		// The path that sorts last wins.
+		if c.Header.Name < child.Header.Name {
+			c.Header, c.data = child.Header, child.data
+		}
+
+		if child.Typeflag != tar.TypeSymlink {
+			c.adopt(child)
+		}
+	}
 }
 
 func (d *dirent) Name() string {
-- 
2.43.0

