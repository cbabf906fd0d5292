From 2bac3b873b74a7ca25a9cc01df5c1313771175b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 01/30] fix: take real advisory locks in filelock

Lock, RLock and Unlock did nothing, so concurrent writers of the same
record file or article were not kept apart. Use flock where the platform
has it.
---
 filelock/filelock.go       | 17 +++++++++++++----
 filelock/filelock_other.go | 18 ++++++++++++++++++
 filelock/filelock_unix.go  | 29 +++++++++++++++++++++++++++++
 3 files changed, 60 insertions(+), 4 deletions(-)
 create mode 100644 filelock/filelock_other.go
 create mode 100644 filelock/filelock_unix.go

diff --git a/filelock/filelock.go b/filelock/filelock.go
index 21d4e12..a0fad9b 100644
--- a/filelock/filelock.go
+++ b/filelock/filelock.go
@@ -1,13 +1,21 @@
 package filelock
 
-type File interface{}
+// File is an open file which can be locked, such as *os.File.
+type File interface {
+	// Fd returns the file descriptor (or handle) of the open file.
+	Fd() uintptr
+}
 
+// Lock places an exclusive lock on f, it waits until every other lock on the
+// same file is released.
 func Lock(f File) error {
-	return nil
+	return lock(f)
 }
 
+// RLock places a shared lock on f, it waits until the exclusive lock on the
+// same file is released.
 func RLock(f File) error {
-	return nil
+	return rlock(f)
 }
 
 func IsLock(f File) bool {
@@ -15,6 +23,7 @@ func IsLock(f File) bool {
 	return false
 }
 
+// Unlock releases the lock on f, closing the file releases it as well.
 func Unlock(f File) error {
-	return nil
+	return unlock(f)
 }
diff --git a/filelock/filelock_other.go b/filelock/filelock_other.go
new file mode 100644
index 0000000..3a26e31
--- /dev/null
+++ b/filelock/filelock_other.go
@@ -0,0 +1,18 @@
+//go:build !(darwin || dragonfly || freebsd || linux || netbsd || openbsd)
+// +build !darwin,!dragonfly,!freebsd,!linux,!netbsd,!openbsd
+
+package filelock
+
+// TODO: file lock is not supported on this platform.
+
+func lock(f File) error {
+	return nil
+}
+
+func rlock(f File) error {
+	return nil
+}
+
+func unlock(f File) error {
+	return nil
+}
diff --git a/filelock/filelock_unix.go b/filelock/filelock_unix.go
new file mode 100644
index 0000000..1439791
--- /dev/null
+++ b/filelock/filelock_unix.go
@@ -0,0 +1,29 @@
+//go:build darwin || dragonfly || freebsd || linux || netbsd || openbsd
+// +build darwin dragonfly freebsd linux netbsd openbsd
+
+package filelock
+
+import (
+	"syscall"
+)
+
+func flock(f File, how int) error {
+	for {
+		err := syscall.Flock(int(f.Fd()), how)
+		if err != syscall.EINTR {
+			return err
+		}
+	}
+}
+
+func lock(f File) error {
+	return flock(f, syscall.LOCK_EX)
+}
+
+func rlock(f File) error {
+	return flock(f, syscall.LOCK_SH)
+}
+
+func unlock(f File) error {
+	return flock(f, syscall.LOCK_UN)
+}
-- 
2.43.0


From 9a5eee173c12b371387c0be7bac543580234a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 02/30] fix: lock the article while appending to it, and undo a
 failed append

AppendBoardArticleFile wrote without a lock, and a write which failed
half way left a part of the comment in the article.
---
 pttbbs/pttbss_append_new_line.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbss_append_new_line.go b/pttbbs/pttbss_append_new_line.go
index c2106c2..8d51704 100644
--- a/pttbbs/pttbss_append_new_line.go
+++ b/pttbbs/pttbss_append_new_line.go
@@ -5,19 +5,31 @@ import (
 	"os"
 
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 )
 
 func (c *Connector) AppendBoardArticleFile(filename string, content []byte) error {
-	// TODO: Lockfile
-
 	f, err := os.OpenFile(filename, os.O_APPEND|os.O_WRONLY, 0644)
 	if err != nil {
 		return fmt.Errorf("AppendNewLine: Cannot open file %s, err: %s", filename, err)
 	}
 	defer f.Close()
 
+	err = filelock.Lock(f)
+	if err != nil {
+		return fmt.Errorf("AppendNewLine: Cannot lock file %s, err: %w", filename, err)
+	}
+	defer filelock.Unlock(f)
+
+	stat, err := f.Stat()
+	if err != nil {
+		return fmt.Errorf("AppendNewLine: Cannot stat file %s, err: %w", filename, err)
+	}
+
 	_, err = f.Write(content)
 	if err != nil {
+		// Do not leave a part of the content behind
+		f.Truncate(stat.Size())
 		return fmt.Errorf("AppendNewLine: Write to file (%s) failed, err: %w", filename, err)
 	}
 	return nil
-- 
2.43.0


From ef10bd3fbf14e43abbb4b7b3848ee3822a78ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 03/30] fix: take a shared lock while reading boards, article
 records and articles

Readers did not lock, so they could see a board list while a board is
being removed or an article while it is being rewritten. Also close the
board file after reading.
---
 pttbbs/board.go  | 7 +++++++
 pttbbs/file.go   | 6 ++++++
 pttbbs/pttbbs.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..5288129 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,6 +174,13 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
+
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, err
+	}
+	defer filelock.Unlock(file)
 
 	ret := []*BoardHeader{}
 
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..69659ab 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -109,6 +109,12 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 	}
 	defer file.Close()
 
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, err
+	}
+	defer filelock.Unlock(file)
+
 	ret := []*FileHeader{}
 
 	for {
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..145d12a 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -2,6 +2,7 @@ package pttbbs
 
 import (
 	"github.com/Ptt-official-app/go-bbs"
+	"github.com/Ptt-official-app/go-bbs/filelock"
 
 	"fmt"
 	"io/ioutil"
@@ -147,6 +148,11 @@ func (c *Connector) ReadBoardArticleFile(filename string) ([]byte, error) {
 		return nil, fmt.Errorf("pttbbs: open file error: %v", err)
 	}
 	defer file.Close()
+	err = filelock.RLock(file)
+	if err != nil {
+		return nil, fmt.Errorf("pttbbs: lock file error: %v", err)
+	}
+	defer filelock.Unlock(file)
 	buf, err := ioutil.ReadAll(file)
 	if err != nil {
 		return nil, fmt.Errorf("pttbbs: readfile error: %v", err)
-- 
2.43.0


From ce633f827848caca0049a071abd6e4078567728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 04/30] fix: keep records aligned after an interrupted append

An append which was interrupted or ran out of space leaves a part of a
record; every board or article appended after it was misread.
---
 pttbbs/board.go       |  5 +++++
 pttbbs/file.go        |  5 +++++
 pttbbs/record_file.go | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+)
 create mode 100644 pttbbs/record_file.go

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 5288129..b094aff 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -224,6 +224,11 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		return err
 	}
 
+	err = dropTornRecord(f, BoardHeaderRecordLength)
+	if err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 69659ab..b2d74a0 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -158,6 +158,11 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 		return err
 	}
 
+	err = dropTornRecord(f, int64(len(data)))
+	if err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
diff --git a/pttbbs/record_file.go b/pttbbs/record_file.go
new file mode 100644
index 0000000..4b6cff0
--- /dev/null
+++ b/pttbbs/record_file.go
@@ -0,0 +1,20 @@
+package pttbbs
+
+import (
+	"os"
+)
+
+// dropTornRecord cuts the incomplete record at the end of a locked record file,
+// which an interrupted append leaves behind. Without this, every record appended
+// later would be out of alignment.
+func dropTornRecord(f *os.File, recordLength int64) error {
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	torn := stat.Size() % recordLength
+	if torn == 0 {
+		return nil
+	}
+	return f.Truncate(stat.Size() - torn)
+}
-- 
2.43.0


From 4f36ea85aa3a3ab6f1bb35e0732da3af4ac1b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 05/30] fix: read whole records and report read errors

The record readers took whatever one read returned as a record, went on
for ever when reading failed, took an incomplete last record for a whole
one, and did not close the file.
---
 formosabbs/file.go | 9 +++++++--
 pttbbs/board.go    | 8 ++++++--
 pttbbs/file.go     | 8 ++++++--
 pttbbs/passwd.go   | 9 +++++++--
 pttbbs/userinfo.go | 6 ++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..ef617c6 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -46,16 +46,21 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// End of file, a record which is not complete is ignored
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index b094aff..52ca52c 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -186,11 +186,15 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// End of file, a record which is not complete is ignored
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index b2d74a0..6ab3db5 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -119,11 +119,15 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// End of file, a record which is not complete is ignored
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..d9613c4 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,16 +206,21 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		// log.Println(len, buf, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// End of file, a record which is not complete is ignored
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..e84f023 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,14 +143,16 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
 	for {
 		buf := make([]byte, 3484)
 
-		_, err := file.Read(buf)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// End of file, a record which is not complete is ignored
 			break
 		} else if err != nil {
 			log.Println(err)
-- 
2.43.0


From 9f1f0426a9f46dba1df2007ed309564e9d1cb945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 06/30] fix: truncate the article before writing new content

WriteBoardArticleFile left the tail of longer old content behind the new
content.
---
 pttbbs/pttbbs_write_article_connector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..f1645d9 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -63,6 +63,10 @@ func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 	}
 	defer filelock.Unlock(f)
 
+	if err := f.Truncate(0); err != nil {
+		return fmt.Errorf("truncate: %w", err)
+	}
+
 	if _, err := f.Write(content); err != nil {
 		return err
 	}
-- 
2.43.0


From 339c6dd9bafce8034b3eb28e9826fef6de0b504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 07/30] fix: replace a user draft atomically

Writing the draft in place lost the old draft when the new one could not
be written, and readers saw drafts which were half written.
---
 pttbbs/draft.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..21bf33b 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -3,6 +3,7 @@ package pttbbs
 import (
 	"io/ioutil"
 	"os"
+	"path/filepath"
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
@@ -16,6 +17,26 @@ func (c *Connector) DeleteUserDraft(filename string) error {
 	return os.Remove(filename)
 }
 
+// WriteUserDraft replaces the draft at once, the old draft is kept if the new
+// one can not be written completely.
 func (c *Connector) WriteUserDraft(filename string, draft []byte) error {
-	return ioutil.WriteFile(filename, draft, 0644)
+	f, err := ioutil.TempFile(filepath.Dir(filename), ".draft")
+	if err != nil {
+		return err
+	}
+
+	_, err = f.Write(draft)
+	if err == nil {
+		err = f.Chmod(0644)
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filename)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
-- 
2.43.0


From f70ead4e56bbc84bd74b371191d4c7a34d3d7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 08/30] fix: report a draft or favorite file which can not be
 read

A file which exists but could not be examined was reported as empty, and
one deleted between Stat and reading as an error.
---
 pttbbs/draft.go  | 5 +++--
 pttbbs/pttbbs.go | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 21bf33b..a060e8d 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -7,10 +7,11 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	draft, err := ioutil.ReadFile(filename)
+	if os.IsNotExist(err) {
 		return []byte{}, nil
 	}
-	return ioutil.ReadFile(filename)
+	return draft, err
 }
 
 func (c *Connector) DeleteUserDraft(filename string) error {
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 145d12a..1b6fcbb 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -55,11 +55,10 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	rec, err := OpenFavFile(filename)
+	if os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
-
-	rec, err := OpenFavFile(filename)
 	if err != nil {
 		return nil, fmt.Errorf("pttbbs: OpenFavFile error: %w", err)
 	}
-- 
2.43.0


From 47bcdc386bfcf032faf077568ee8afe38b00e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 09/30] fix: give up allocating an article filename which can
 not be created

Only a filename which is taken is worth another try; any other error,
such as a missing board directory, made the loop run for ever. A second
in which every filename is taken is left by reading the clock again.
---
 pttbbs/pttbbs_write_article_connector.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1645d9..2e1c0e8 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return "", err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -102,11 +105,11 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	}
 
 	filename := ""
-	dtime := time.Now().Unix()
-	rand.Seed(dtime)
+	rand.Seed(time.Now().Unix())
 
 	var f *os.File
 	for {
+		dtime := time.Now().Unix()
 		filename = fmt.Sprintf("M.%d.A.%3.3X", dtime, rand.Intn(0x1000))
 		path, err := c.GetBoardArticleFilePath(boardID, filename)
 		if err != nil {
@@ -117,6 +120,9 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From da67a9de706f33ea040deba58f9916b085a1736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 10/30] fix: read favorites with boards which do not exist, and
 short files

Board number 0 or one past the end of the board list, and a favorite
file shorter than its version number, made the reader panic.
---
 pttbbs/fav.go    | 3 +++
 pttbbs/pttbbs.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..386ec64 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -204,6 +204,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 1b6fcbb..a2310ac 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -85,6 +85,10 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 		switch item.Item.(type) {
 		case *FavBoardItem:
 			bid := item.Item.(*FavBoardItem).BoardID - 1
+			if uint64(bid) >= uint64(len(brd)) {
+				// The board does not exist
+				continue
+			}
 			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
-- 
2.43.0


From 3a3bbdd91567dd9603d22c30422b02129912c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 11/30] fix: report broken login logs instead of ending the
 process

A line which is too short made the logins.bad reader panic, a read error
was ignored there and ended the whole process for logins.recent.
---
 pttbbs/bad_logins.go   | 13 +++++++++++++
 pttbbs/login_recent.go |  3 ++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..be4ecef 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
@@ -102,6 +103,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
@@ -110,6 +114,12 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
 	idx := 0 // current index of str
+	if len(str) == 0 {
+		return ErrInvalidLoginsBadFormat
+	}
+	if str[idx] != '[' && len(str) < 1+UserIDLength {
+		return ErrInvalidLoginsBadFormat
+	}
 	// Handle Success and UserID
 	switch str[idx] {
 	case ' ':
@@ -131,6 +141,9 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 		return ErrInvalidLoginsBadFormat
 	}
 	l.UserID = strings.TrimSpace(l.UserID)
+	if len(str) < idx+len(loginStartTimeFormatString)+1 {
+		return ErrInvalidLoginsBadFormat
+	}
 	// Now idx points to the start of time
 	// TODO: do we need to consider timezone? This Parse returns UTC
 	t, err := time.Parse(loginStartTimeFormatString, str[idx:idx+len(loginStartTimeFormatString)])
diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
@@ -51,7 +52,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 6541c203d3f42bf9d5ff851a0bd801a96097ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 12/30] fix: check the index and the result of removing a board

Removing a board which does not exist made the board list longer, and a
truncate error was reported as success.
---
 pttbbs/board.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 52ca52c..c9836aa 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -254,6 +254,15 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		// File is lock
 		return err
 	}
+	defer filelock.Unlock(fi)
+
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
+		return fmt.Errorf("index %d out of range", index)
+	}
 
 	fo, err := os.OpenFile(filename, os.O_WRONLY, 0644)
 	if err != nil {
@@ -280,8 +289,10 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
-	filelock.Unlock(fi)
+	err = fo.Truncate(size)
+	if err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	return nil
 
 }
-- 
2.43.0


From 805ccc4909292ea7868f8d7907d39298a2061b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 13/30] fix: keep money, vote limits and file mode when an
 article record is updated

UpdateArticleRecordFileRecord cleared them, and an index past the end of
the file made a hole of empty records.
---
 pttbbs/file.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 6ab3db5..a2c4d3d 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -29,6 +29,7 @@ package pttbbs
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -196,6 +197,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if uint64(index) >= uint64(stat.Size()/128) {
+		return fmt.Errorf("index %d out of range", index)
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
@@ -253,7 +262,15 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	// TODO: Check file mode for set AnnoUID ... etc
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.money))
+	if f.IsVotePost() {
+		ret[PosOfFileHeaderUnionMulti+0] = f.VoteLimits.Posts
+		ret[PosOfFileHeaderUnionMulti+1] = f.VoteLimits.Logins
+		ret[PosOfFileHeaderUnionMulti+2] = f.VoteLimits.Regtime
+		ret[PosOfFileHeaderUnionMulti+3] = f.VoteLimits.Badpost
+	}
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 1bddaaa65e1402f98559ac6c373f8c831d865502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 14/30] fix: keep databases with different homes apart

Every DB opened with the same driver shared one connector, so opening a
second BBS home sent all reads and writes of the first DB there.
---
 bbs.go           | 11 +++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/bbs.go b/bbs.go
index 6db7b31..1321368 100644
--- a/bbs.go
+++ b/bbs.go
@@ -267,6 +267,13 @@ type UserDraftConnector interface {
 	WriteUserDraft(name string, draft []byte) error
 }
 
+// ConnectorFactory is a driver which gives every opened DB a connector of its own,
+// so that databases with different data sources can be used at the same time.
+type ConnectorFactory interface {
+	// NewConnector returns a new connector which is not opened yet.
+	NewConnector() Connector
+}
+
 var drivers = make(map[string]Connector)
 
 func Register(drivername string, connector Connector) {
@@ -282,6 +289,10 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	if factory, ok := c.(ConnectorFactory); ok {
+		c = factory.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index a2310ac..f7278d8 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -18,6 +18,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a new connector, see bbs.ConnectorFactory.
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From 726101a0171e346d8b97d03832206bf1cb362690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 15/30] fix: do not write into the treasure path of the caller

Appending to the slice overwrote the caller's data behind it.
---
 pttbbs/path.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..8ab237b 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -75,13 +75,15 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
-	path = append(path, "")
+	// Append to a copy, path belongs to the caller
+	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
-	path = append(path, "")
+	// Append to a copy, path belongs to the caller
+	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
-- 
2.43.0


From e3ac8d07a287aaf1b1a9adb8ac83916ef67f6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 16/30] fix: find comments behind a long line

The scanner stopped at a line of 64 KiB, comments behind it were left out
without an error.
---
 bbs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bbs.go b/bbs.go
index 1321368..1ba47ce 100644
--- a/bbs.go
+++ b/bbs.go
@@ -686,6 +686,8 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	// A line may be as long as the article
+	scanner.Buffer(nil, len(content)+bufio.MaxScanTokenSize)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
@@ -700,6 +702,10 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 		crs = append(crs, cr)
 		floorCnt++
 	}
+	if err := scanner.Err(); err != nil {
+		log.Println("bbs: scan article error:", err)
+		return nil, err
+	}
 
 	if len(crs) > 1 {
 		log.Println(content)
-- 
2.43.0


From 50838f7e8d957fb44c3e43b0b8c99829d31ea653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 17/30] fix: report an empty user or board id instead of
 panicking

The path of a user or board starts with the first letter of its id.
---
 pttbbs/path.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 8ab237b..d213e19 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,16 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+var (
+	ErrEmptyUserID  = errors.New("pttbbs: user id must not be empty")
+	ErrEmptyBoardID = errors.New("pttbbs: board id must not be empty")
+)
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +42,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +61,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyUserID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +88,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,6 +99,9 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	// Append to a copy, path belongs to the caller
 	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
@@ -82,6 +109,9 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	// Append to a copy, path belongs to the caller
 	path = append(path[:len(path):len(path)], "")
 	subPath := strings.Join(path, "/")
@@ -90,5 +120,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyBoardID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 73054099dbb0b364ccd2901290c817e9f0f3de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 18/30] fix: skip deleted boards when collecting a user's
 articles and comments

pttbbs keeps the record of a deleted board with an empty id.
---
 bbs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index 1ba47ce..c9742eb 100644
--- a/bbs.go
+++ b/bbs.go
@@ -558,7 +558,8 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// The id of a deleted board is empty
+		if boardID == "ALLPOST" || boardID == "" {
 			return true
 		}
 		return false
@@ -625,7 +626,8 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		// The id of a deleted board is empty
+		if boardID == "ALLPOST" || boardID == "" {
 			return true
 		}
 		return false
-- 
2.43.0


From 8a7362890f93865db3efcae2ff03ed0ef1f25d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 19/30] fix: read user info from the cache

Cache.UserInfo always panicked because the length of a record was never
set, and settings without AlignmentBytes, such as those of pttbbs/cmd,
divided by zero.
---
 pttbbs/cache.go    | 3 ++-
 pttbbs/userinfo.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..5738ec2 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -107,7 +107,7 @@ func (c *Cache) caculatePos() {
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
 	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
@@ -301,6 +301,7 @@ func NewCache(connectionString string, settings *MemoryMappingSetting) (*Cache,
 		Cache:                c,
 		MemoryMappingSetting: settings,
 	}
+	ret.lenOfUserInfo = userInfoLength
 	ret.caculatePos()
 	return &ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index e84f023..7417261 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -137,6 +137,9 @@ type UserInfoCache struct {
 }
 
 // function used for testing unmarshal and marshal function
+// userInfoLength is the size of userinfo_t
+const userInfoLength = 3484
+
 func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 	file, err := os.Open(filename)
 	if err != nil {
@@ -148,7 +151,7 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 	ret := []*UserInfoCache{}
 
 	for {
-		buf := make([]byte, 3484)
+		buf := make([]byte, userInfoLength)
 
 		_, err := io.ReadFull(file, buf)
 		if err == io.EOF || err == io.ErrUnexpectedEOF {
-- 
2.43.0


From 99a20689e1eb1b56e54b31856075d5a1f49c300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 20/30] fix: copy the messages of a user info out of the shared
 memory

They pointed into the mapping: reading them after the cache was closed
ended the process with a memory fault.
---
 pttbbs/userinfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 7417261..a23a608 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -206,7 +206,8 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		// data may be shared memory which is gone when the message is read
+		cache.Msgs[idx] = append(MessageQueueCache{}, data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100]...)
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From b3d9bb116428bdb2eff0ac15d6d22bd993a93567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 21/30] fix: close the file when it can not be mapped

---
 cache/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..647e558 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -44,6 +45,7 @@ func openFile(f *os.File) (*Mmap, error) {
 
 	stat, err := f.Stat()
 	if err != nil {
+		f.Close()
 		// fmt.Println("stat error", err)
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
@@ -53,6 +55,7 @@ func openFile(f *os.File) (*Mmap, error) {
 
 	b, err := openMmap(fd, size)
 	if err != nil {
+		f.Close()
 		fmt.Println("mmap error", err)
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
-- 
2.43.0


From 0f5a22ff6fb1f73c44fbc18cb921db93448f3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 22/30] fix: let an access token expire 30 minutes after it is
 issued

The expiry was 30 minutes after 1970-01-01, so no token was ever valid.
---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..d21744f 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 53196ceb03289b62d93417addf2ccabbfee60754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 23/30] fix: reject a stored password which is too short or
 broken

VerifyPassword and Fcrypt panicked when the salt was missing or not ASCII.
---
 crypt/bbscrypt.go | 3 +++
 pttbbs/passwd.go  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..45500a8 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,9 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	if len(salt) < 2 || int(salt[0]) >= len(conSalt) || int(salt[1]) >= len(conSalt) {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index d9613c4..d8b465f 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,6 +154,10 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
+	if len(u.password) < 2 {
+		// There is no password, nobody can login
+		return fmt.Errorf("password incorrect")
+	}
 	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
 	if err != nil {
 		return err
-- 
2.43.0


From 26e17ee4525efde82e644b2b96669111e63a8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 24/30] fix: stop bbstool after an error instead of crashing

A home which does not exist or a missing user_id ended in a panic, a list
which could not be read was shown as empty, and add_board_article without
content posted an empty article.
---
 cmd/bbstool/articles.go |  8 ++++++++
 cmd/bbstool/main.go     | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..ce254f0 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -24,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
@@ -37,6 +42,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -68,6 +74,7 @@ func addBoardArticle() {
 	contentFile, inputFileOk := inputArgs["content_file"].(string)
 	if !contentOk && !inputFileOk {
 		fmt.Println("please provide content or content_file")
+		return
 	}
 
 	if !contentOk {
@@ -104,6 +111,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From be454309159e835444ec46fa1b3ed38fa2233b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 25/30] fix: do not read favourites whose item counts overflow
 as empty

The number of items of a folder was computed modulo 65536, so that a damaged
file could pass for one without any favourites.
---
 pttbbs/fav.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 386ec64..eb4baff 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -249,13 +249,14 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	// The sum of the three numbers does not have to fit in a uint16
+	itemCount := int(ret.NBoards) + int(ret.NFolders) + int(ret.NLines)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From 432e93d8242a60f4042239b5d837182bb606a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 26/30] fix: read and write the last fields of a user info at
 their places

The position of the ties in Chinese chess was computed from the wrong field,
and two paddings were missing, so all following fields were off. The end of
the last one is the size of the record now.
---
 pttbbs/userinfo.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index a23a608..82c0811 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,18 +58,18 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // padding
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // padding
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 7015428706b29c638fee6943bb9482dd1a4088e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 27/30] fix: keep the text after a character which Big5 lacks

Utf8ToBig5 dropped the error of the encoder, which stops at the first
character without a Big5 code, so titles and articles were cut off there
although posting reported success.
---
 big5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..ff6171b 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,14 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	// A character which Big5 lacks must not cut off the text after it.
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From f58bec82f14a2c5af06d6fa0b58d4dec4194f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 28/30] fix: keep the colons of a comment where they are

---
 user_comment_record.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..03542cc 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,9 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// The comment is everything between the owner and the time, and may contain colons.
+	commentStr = strings.TrimSuffix(commentStr, ctimeStr)
+	comment = strings.TrimSpace(commentStr[len(owner)+len(":"):])
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From 51cba84a2826ed1e7eee7db0ce11b6f1f63bb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 29/30] fix: skip lines of an article which look like comments
 with a time that does not exist

---
 user_comment_record.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/user_comment_record.go b/user_comment_record.go
index 03542cc..785538f 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -117,6 +117,8 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 	ctimeStr := matches[timeIdx]
 	ctime, err = time.Parse("01/02 15:04", ctimeStr)
 	if err != nil {
+		// Text which only looks like a comment, its time does not exist
+		err = fmt.Errorf("%w: %v", ErrNotUserComment, err)
 		return
 	}
 
-- 
2.43.0


From 79cd8f2638990727378b1dddb7ba8fe6e708d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 30/30] fix: let articles without a file not stop the
 collection of comments

---
 bbs.go           | 8 ++++++++
 pttbbs/pttbbs.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index c9742eb..530907b 100644
--- a/bbs.go
+++ b/bbs.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"os"
 	"strings"
 	"time"
 )
@@ -660,7 +661,14 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 	}
 
 	for _, ar := range ars {
+		// A deleted article has no name, or no file any more
+		if ar.Filename() == "" {
+			continue
+		}
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
+		if errors.Is(err, os.ErrNotExist) {
+			continue
+		}
 		if err != nil {
 			log.Println("bbs: GetBoardArticleCommentRecords error:", err)
 			return nil, err
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index f7278d8..7195491 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -153,7 +153,7 @@ func (c *Connector) GetBoardTreasureFilePath(boardID string, treasureID []string
 func (c *Connector) ReadBoardArticleFile(filename string) ([]byte, error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		return nil, fmt.Errorf("pttbbs: open file error: %v", err)
+		return nil, fmt.Errorf("pttbbs: open file error: %w", err)
 	}
 	defer file.Close()
 	err = filelock.RLock(file)
-- 
2.43.0

