From cbf778fbc6c19349c2d7aa561ca99632adca7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 01/42] fix: clear the pending content of a context once it is
 committed

A second Commit on the same context committed the already committed content
again: it was stored twice and listed twice in the content keys.
---
 libs/databases/infrastructure/files/application.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..d5d564e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -406,6 +406,9 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+
+		// the pending content is now committed, so it must not be part of the next commit:
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 74ae0db91a4bd74d331a79c9b9ca7cb979d0224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 02/42] fix: give every opened context its own identifier

The identifier was the amount of opened contexts, so opening a context after
closing an older one replaced a context that was still in use.
---
 libs/databases/infrastructure/files/application.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index d5d564e..6e07916 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -34,6 +34,7 @@ type application struct {
 	bckExtension                string
 	readChunkSize               uint
 	contexts                    map[uint]*context
+	nextContext                 uint
 }
 
 func createApplication(
@@ -70,6 +71,7 @@ func createApplication(
 		bckExtension:                bckExtension,
 		readChunkSize:               readChunkSize,
 		contexts:                    map[uint]*context{},
+		nextContext:                 0,
 	}
 
 	return &out
@@ -152,7 +154,7 @@ func (app *application) Open(name string) (*uint, error) {
 
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  app.nextContext,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
@@ -162,6 +164,7 @@ func (app *application) Open(name string) (*uint, error) {
 	}
 
 	app.contexts[pContext.identifier] = pContext
+	app.nextContext++
 	return &pContext.identifier, nil
 }
 
-- 
2.43.0


From eb40014dbddef966fef0f7f8cd82ca6bcb935b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 03/42] fix: copy the last partial chunk of the existing
 content on commit

When the size of the stored content was not a multiple of the read chunk size,
the commit dropped its last bytes; a read or write error while copying was
silently handled as the end of the content.
---
 .../databases/infrastructure/files/application.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6e07916..a5e1d03 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -621,22 +621,21 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		chunkSize := app.makeChunkSize(uint(contentSize))
 
 		for {
-			// read the file at offset:
+			// read the file at offset, the last chunk might be smaller than the chunk size:
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
-			if err != nil {
-				break
+			if err != nil && err != io.EOF {
+				return nil, err
 			}
 
-			if chunkSize != uint(amountRead) {
-				str := fmt.Sprintf("%d bytes were expected to be read from source database, %d actually read", chunkSize, amountRead)
-				return nil, errors.New(str)
+			if amountRead <= 0 {
+				break
 			}
 
 			// write content on destination:
-			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
+			err = app.saveDataOnDisk(writeOffset, contentBytes[:amountRead], destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
-- 
2.43.0


From 14ca685aea7ef4ea9ef69b2a1c279457a5fd0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 04/42] fix: fail the commit when its content cannot be written
 on disk

A write error while saving the new content was ignored: the commit reported a
success although its content was truncated on disk.
---
 .../infrastructure/files/application.go       | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a5e1d03..65d9408 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -592,8 +592,13 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		return nil, err
 	}
 
-	// close the destination:
-	defer destination.Close()
+	// close the destination on error:
+	isClosed := false
+	defer func() {
+		if !isClosed {
+			destination.Close()
+		}
+	}()
 
 	// convert the updated reference to data:
 	refData, err := app.referenceToContent(updatedReference)
@@ -616,7 +621,11 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
 		contentSize := pInfo.Size() - int64(context.dataOffset)
 		chunkSize := app.makeChunkSize(uint(contentSize))
 
@@ -649,13 +658,20 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
 		writeOffset += int64(len(contentBytes))
 	}
 
+	// close the destination:
+	isClosed = true
+	err = destination.Close()
+	if err != nil {
+		return nil, err
+	}
+
 	dataOffset := uint(writtenAmount)
 	return &dataOffset, nil
 }
-- 
2.43.0


From 4b3eae6f5a36dcebe305e6af518c20cfddf777ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 05/42] fix: replace the database atomically on commit

The commit deleted the database before it renamed the new one, so a crash or an
error in between left no database at all, and it closed the connection of the
context before the last step that could fail, which made the context unusable.
The new connection is opened before the rename, otherwise it could be opened on
a database that another process committed in the meantime.
---
 .../infrastructure/files/application.go       | 31 ++++++-------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 65d9408..38e94bd 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -537,6 +537,7 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 
 	_, err = io.Copy(backupPtr, context.pConn)
 	if err != nil {
+		backupPtr.Close()
 		return nil, nil, err
 	}
 
@@ -546,38 +547,24 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// open the new source connection, before it becomes visible to others:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
-	err = os.Rename(destinationPath, sourcePath)
+	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// delete the backup file:
-	err = os.Remove(backupPath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// re-open the source connection:
-	pNewConn, err := os.Open(sourcePath)
+	// rename the destination database to source, this atomically replaces the source database:
+	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
+		pNewConn.Close()
 		return nil, nil, err
 	}
 
+	// the commit is now applied, so a failure to clean up must not report it as failed:
+	os.Remove(backupPath)
+	context.pConn.Close()
 	return pNewConn, pDataOffset, nil
 }
 
-- 
2.43.0


From f34105c126733671314fd57022cfd75e3514e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 06/42] fix: read the reference of a context on its own
 connection

Open read the reference on a first connection and kept a second one: when
another process committed in between, the reference did not match the content
and the next commit dropped the commit of the other process.
---
 .../infrastructure/files/application.go       | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 38e94bd..fef90ea 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -137,15 +137,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// read the reference on the same connection, the database could be replaced at any time:
+	reference, offset, err := app.retrieveReference(pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -176,15 +178,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-- 
2.43.0


From 836496ac5368862524383b55a43e400f191c1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 07/42] fix: report the errors that occur when reading the
 reference length

A read error, or a truncated reference length, was handled as an empty database,
so the next commit discarded everything the database contained.
---
 libs/databases/infrastructure/files/application.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fef90ea..44ba8ac 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -182,10 +182,15 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err == io.EOF && refAmount <= 0 {
+		// the database is new, so there is no reference:
 		return nil, 0, nil
 	}
 
+	if err != nil && err != io.EOF {
+		return nil, 0, err
+	}
+
 	if refAmount != expectedReferenceBytesLength {
 		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
 		return nil, 0, errors.New(str)
-- 
2.43.0


From 4646db5c895897e976a6e3f623f58f50bf4a6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 08/42] fix: refuse to open a database whose reference length
 is invalid

A damaged reference length panicked (division by zero, allocation failure).
---
 .../infrastructure/files/application.go          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 44ba8ac..9d74ff2 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -197,7 +197,21 @@ func (app *application) retrieveReference(pConn *os.File) (references.Reference,
 	}
 
 	// convert the reference length to uint64:
-	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
+	refLengthValue := binary.LittleEndian.Uint64(refLengthBytes)
+
+	// make sure the reference fits in the file:
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	maxLength := pInfo.Size() - int64(expectedReferenceBytesLength)
+	if refLengthValue <= 0 || maxLength <= 0 || refLengthValue > uint64(maxLength) {
+		str := fmt.Sprintf("the reference length (%d) is invalid, there is %d bytes available", refLengthValue, maxLength)
+		return nil, 0, errors.New(str)
+	}
+
+	refLength := int(refLengthValue)
 
 	// read the reference data:
 	refAllBytes := []byte{}
-- 
2.43.0


From ff3347bd6a48ee0e43d493dae8c177ef94e37c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 09/42] fix: refuse to commit a context whose database was
 replaced

A context that was opened before another process committed overwrote the commit
of that process, and a deleted database was created again.
---
 .../infrastructure/files/application.go       | 33 ++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 9d74ff2..b8106ce 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -520,8 +520,14 @@ func (app *application) updateReference(context uint) (references.Reference, err
 }
 
 func (app *application) updateDatabaseOnFile(context *context, updatedReference references.Reference) (*os.File, *uint, error) {
+	// make sure the database still is the one that was opened, before locking because locking creates a missing file:
+	err := app.verifyConnection(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// create a lock on the file:
-	err := context.pLock.TryLock()
+	err = context.pLock.TryLock()
 	if err != nil {
 		return nil, nil, err
 	}
@@ -529,6 +535,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// now that it cannot be replaced anymore, make sure it was not replaced before it was locked:
+	err = app.verifyConnection(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
@@ -581,6 +593,25 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	return pNewConn, pDataOffset, nil
 }
 
+func (app *application) verifyConnection(context *context) error {
+	current, err := os.Stat(filepath.Join(app.dirPath, context.name))
+	if err != nil {
+		return err
+	}
+
+	opened, err := context.pConn.Stat()
+	if err != nil {
+		return err
+	}
+
+	if !os.SameFile(current, opened) {
+		str := fmt.Sprintf("the database (name: %s) was modified since the context (%d) was opened and therefore the context cannot be comitted", context.name, context.identifier)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 func (app *application) writeDataAndReferenceOnDestinationFile(context *context, updatedReference references.Reference) (*uint, error) {
 	// destination path:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
-- 
2.43.0


From 19870aced89963600ee1c21ba9b8ad227baedc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 10/42] fix: never truncate a database that is created at the
 same time

The database could be created by another process between the verification and
the creation, in which case it was emptied.
---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index b8106ce..3c0cd6d 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -104,7 +104,7 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	file, err := os.Create(path)
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 71f92402fdfc8c5f31372af1b0b0ebf83b293ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 11/42] fix: reserve the extensions of the temporary files of a
 commit

A database named after the backup or the destination of another one was
destroyed when the other one was comitted.
---
 libs/databases/infrastructure/files/application.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 3c0cd6d..0a6914e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/juju/fslock"
@@ -90,6 +91,13 @@ func (app *application) Exists(name string) (bool, error) {
 
 // New creates a new database
 func (app *application) New(name string) error {
+	for _, oneExtension := range []string{app.dstExtension, app.bckExtension} {
+		if strings.HasSuffix(name, fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)) {
+			str := fmt.Sprintf("the database (name: %s) cannot use the extension: %s, it is reserved", name, oneExtension)
+			return errors.New(str)
+		}
+	}
+
 	if _, err := os.Stat(app.dirPath); errors.Is(err, os.ErrNotExist) {
 		err := os.MkdirAll(app.dirPath, filePermission)
 		if err != nil {
-- 
2.43.0


From 22a240848c7dc11cb7e919fb720e2e0193af3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 12/42] fix: do not report a database that cannot be verified
 as missing

---
 libs/databases/infrastructure/files/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0a6914e..cff6b56 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -86,6 +86,10 @@ func (app *application) Exists(name string) (bool, error) {
 		return !fileInfo.IsDir(), nil
 	}
 
+	if !errors.Is(err, os.ErrNotExist) {
+		return false, err
+	}
+
 	return false, nil
 }
 
-- 
2.43.0


From 83d92249936c504a8654814f60d54ffec957ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 13/42] fix: refuse to read a pointer that exceeds the content

Reading a pointer with a huge length panicked, and one whose offset overflowed
returned bytes of the reference.
---
 libs/databases/infrastructure/files/application.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index cff6b56..618a6fc 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -319,6 +319,17 @@ func (app *application) Read(context uint, pointer references.Pointer) ([]byte,
 	if pContext, ok := app.contexts[context]; ok {
 		offset := pContext.dataOffset + pointer.From()
 		length := pointer.Length()
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		contentSize := uint(pInfo.Size()) - pContext.dataOffset
+		if length > contentSize || pointer.From() > contentSize-length {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) exceeds the content (size: %d)", pointer.From(), length, contentSize)
+			return nil, errors.New(str)
+		}
+
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From 4de949b2565ce2cc16c50f9b12076f276b3d9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 14/42] fix: write the data as it was when Write was called

The context kept the slice of the caller, so reusing a buffer after Write
changed what was comitted.
---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 618a6fc..a2ff3d7 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -400,7 +400,9 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(data).WithKind(kind).Now()
+		// copy the data, the caller can modify its own before the commit:
+		copied := append([]byte{}, data...)
+		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(copied).WithKind(kind).Now()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From fad634ec59ac9de39c1a3dff3dff4a96732045bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 15/42] fix: support a read chunk size of zero

Opening a database panicked on a division by zero, and a commit dropped the
existing content.
---
 libs/databases/infrastructure/files/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index a2ff3d7..fca7b28 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -183,7 +183,7 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
-- 
2.43.0


From c85b838992d8611dbf2ad065abcf176796c06753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 16/42] fix: remove a context even when closing its connection
 fails

The context could then never be closed, and the database never opened again.
---
 libs/databases/infrastructure/files/application.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fca7b28..c637902 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -776,13 +776,9 @@ func (app *application) saveDataOnDisk(offset int64, data []byte, pConn *os.File
 // Close closes a context
 func (app *application) Close(context uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		err := pContext.pConn.Close()
-		if err != nil {
-			return err
-		}
-
+		// the connection cannot be closed twice, so the context is removed even if there is an error:
 		delete(app.contexts, context)
-		return nil
+		return pContext.pConn.Close()
 	}
 
 	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be closed", context)
-- 
2.43.0


From 587d00443fe6ea73b27cd31a1786205adfa4b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 17/42] fix: refuse a content whose hash has an invalid size

The stored references have a fixed size per content, so such a content made the
whole database unreadable once it was comitted.
---
 libs/databases/domain/contents/content_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/databases/domain/contents/content_builder.go b/libs/databases/domain/contents/content_builder.go
index 44912d6..ad05f4e 100644
--- a/libs/databases/domain/contents/content_builder.go
+++ b/libs/databases/domain/contents/content_builder.go
@@ -2,6 +2,7 @@ package contents
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
 )
@@ -51,6 +52,11 @@ func (app *contentBuilder) Now() (Content, error) {
 		return nil, errors.New("the hash is mandatory in order to build a Content instance")
 	}
 
+	if len(*app.pHash) != hash.Size {
+		str := fmt.Sprintf("the hash was expected to contain %d bytes in order to build a Content instance, %d provided", hash.Size, len(*app.pHash))
+		return nil, errors.New(str)
+	}
+
 	if app.pKind == nil {
 		return nil, errors.New("the kind is mandatory in order to build a Content instance")
 	}
-- 
2.43.0


From 74509d44097f7c1759637f5482ca8bdc340e417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 18/42] fix: build a hashtree without panicking on zero block
 or writing in the given blocks

Committing a context without any pending content panicked, and a single block
whose slice had spare capacity got its next element overwritten.
---
 libs/cryptography/domain/hashtrees/builder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..d373ed8 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -74,12 +74,18 @@ func (app *builder) Now() (HashTree, error) {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
 
-	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+	if len(app.blocks) <= 0 {
+		return nil, errors.New("there must be at least 1 block in order to build an HashTree instance")
+	}
+
+	// copy the blocks, to never write in the slice of the caller:
+	blocks := append([][]byte{}, app.blocks...)
+	if len(blocks) <= 1 {
+		blocks = append(blocks, []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-	for _, oneData := range app.blocks {
+	for _, oneData := range blocks {
 		oneHash, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e07f42e5e425d6535837ac08917151942f2d9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 19/42] fix: use every data block exactly once when re-ordering

ToOrder repeated a block for every leaf that has its hash: mixed data that does
not match the tree was accepted, and a tree that contains an empty block could
not be re-ordered.
---
 libs/cryptography/domain/hashtrees/adapter.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..78c4c4f 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,10 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if waiting := hashed[leafHashAsString]; len(waiting) > 0 {
+			// every data can only be used once:
+			out = append(out, waiting[0])
+			hashed[leafHashAsString] = waiting[1:]
 			continue
 		}
 
-- 
2.43.0


From 4328cf00c1da2ebf01adb21df9f567f35ec6aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 20/42] fix: return an error when decoding a damaged hashtree

A length that exceeds the content made the decoders panic.
---
 libs/cryptography/domain/hashtrees/leaf_adapter.go   |  8 +++++++-
 libs/cryptography/domain/hashtrees/leaves_adapter.go | 12 +++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..6231d41 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftLengthValue := binary.LittleEndian.Uint64(content[:8])
+	if leftLengthValue > uint64(contentLength-8) {
+		str := fmt.Sprintf("the left leaf was expected to contain %d bytes in order to convert to a ParentLeaf instance, %d available", leftLengthValue, contentLength-8)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftLengthValue)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..41f85e6 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,8 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if contentLength < lengthEndsOn {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Leaves instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafLengthValue := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafLengthValue > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the leaf (index: %d) was expected to contain %d bytes in order to convert to a Leaves instance, %d available", i, leafLengthValue, contentLength-lengthEndsOn)
+			return nil, errors.New(str)
+		}
 
+		leafLength := int(leafLengthValue)
 		endsOn := lengthEndsOn + leafLength
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
-- 
2.43.0


From 47e3d026fd9431204aaee08ec1e64834cc49be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 21/42] fix: return an error when decoding damaged contents or
 references

A length that exceeds the content made the decoders panic, and so did opening a
database that contains one.
---
 libs/databases/domain/contents/adapter.go       |  9 +++++++++
 libs/databases/domain/references/adapter.go     | 17 +++++++++++------
 .../domain/references/commit_adapter.go         | 13 +++++++++++++
 .../domain/references/commits_adapter.go        | 13 ++++++++++++-
 .../domain/references/contentkeys_adapter.go    |  8 +++++++-
 5 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..18cc582 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the remaining content was expected to contain at least %d bytes in order to convert to a Contents instance, %d provided", sizeDelimiter, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the content was expected to contain %d bytes in order to convert to a Contents instance, %d available", size, len(remaining)-sizeDelimiter)
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..93bb7ca 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,25 +61,30 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter {
+		str := fmt.Sprintf("the ContentKeys were expected to contain %d bytes in order to convert to a Reference instance, %d provided", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
 	}
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
+	if uint64(contentLength) < commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesLengthDelimiter, contentLength)
+		return nil, errors.New(str)
+	}
+
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the Commits were expected to contain %d bytes in order to convert to a Reference instance, %d provided", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..d699751 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -83,6 +83,10 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the values were expected to contain %d bytes in order to convert to a Commit instance, %d available", valueBytesAmount, contentLength-valuesBytesAmountDelimiter)
+		return nil, errors.New(str)
+	}
 
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
@@ -96,7 +100,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the proof length was expected to contain %d bytes in order to convert to a Commit instance, %d provided", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the proof was expected to contain %d bytes in order to convert to a Commit instance, %d available", proofBytesLength, len(remaining)-proofBytesLengthDelimiter)
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..1065358 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -60,7 +60,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 		}
 
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
+		if amount < 8 {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to convert to a Commits instance, %d provided", lengthDelimiter, len(content))
+			return nil, errors.New(str)
+		}
+
+		lengthValue := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if lengthValue > uint64(amount-8) {
+			str := fmt.Sprintf("the commit was expected to contain %d bytes in order to convert to a Commits instance, %d available", lengthValue, amount-8)
+			return nil, errors.New(str)
+		}
+
+		length := int(lengthValue)
 		contentDelimiter := lengthDelimiter + length
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..1bbbbc6 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,7 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	lengthValue := binary.LittleEndian.Uint64(content[:8])
+	if lengthValue > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances, there is only %d bytes provided", lengthValue, len(content))
+		return nil, errors.New(str)
+	}
+
+	length := int(lengthValue)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 653c2cc5487ff6b0eb027eee29c41d8b615cff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 22/42] fix: return an error when the leaves cannot form an
 hashtree

An amount of leaves that is not a power of 2 panicked.
---
 libs/cryptography/domain/hashtrees/leaves_adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 41f85e6..2878779 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -102,6 +102,11 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 func (app *leavesAdapter) ToHashTree(ins Leaves) (HashTree, error) {
 	list := ins.Leaves()
 	length := len(list)
+	if length < 2 || (length&(length-1)) != 0 {
+		str := fmt.Sprintf("the amount of leaves (%d) was expected to be a power of 2, and at least 2, in order to convert to an HashTree instance", length)
+		return nil, errors.New(str)
+	}
+
 	if length == 2 {
 		left := list[0]
 		right := list[1]
-- 
2.43.0


From 1c027420336168d17b5d5d73b5d41e6c06ed12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 23/42] fix: keep the remaining data and the suffix of an
 external grammar

Everything that followed the part matched by an external grammar was silently
dropped: the elements after it never matched and the data was lost.
---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..df21379 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -578,7 +578,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From c679a0825901ea6b5cd2eb54b15eee50ec429b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 24/42] fix: match the composes of a line

A line that contains a compose never matched, because the matched values were
stored in a shadowed list, and the occurences were not read from the data.
---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index df21379..0212ee9 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -752,30 +752,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					if value == nil {
+						str := fmt.Sprintf("the compose (name: %s) was expected to match the value: %d", compose.Name(), grValue.Number())
+						return nil, nil, nil, errors.New(str)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From 569327b58a68557fb6cac0d061f594bb5b253adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 25/42] fix: verify every element of a line against its own
 container

The elements were retrieved by name, so a line that uses the same element more
than once was compared with its last occurence only and could be refused.
---
 libs/asts/domain/trees/line.go | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..99a7052 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -87,21 +87,17 @@ func (obj *line) IsSuccessful() bool {
 		return true
 	}
 
+	// the elements are in the order of the containers, a container without content has no element:
+	cursor := 0
 	for _, oneContainer := range requested {
-		if oneContainer.IsElement() {
-			requestedElement := oneContainer.Element()
-			requestedMin := requestedElement.Cardinality().Min()
-			if requestedMin <= 0 {
-				continue
-			}
-
-			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
-				return false
-			}
+		amount := uint(0)
+		if cursor < len(elements) && elements[cursor].Grammar() == oneContainer {
+			amount = elements[cursor].Amount()
+			cursor++
+		}
 
-			amount := element.Amount()
+		if oneContainer.IsElement() {
+			requestedMin := oneContainer.Element().Cardinality().Min()
 			if requestedMin > amount {
 				return false
 			}
@@ -115,13 +111,6 @@ func (obj *line) IsSuccessful() bool {
 				requestedOccurences += oneElement.Occurences()
 			}
 
-			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
-				return false
-			}
-
-			amount := element.Amount()
 			if amount != requestedOccurences {
 				return false
 			}
-- 
2.43.0


From 2269e29d48a0cf4252ccabde2a2f70c4a14c0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 26/42] fix: keep the enclosing token in the stack when a
 recursive token is parsed

Leaving the recursive token removed the enclosing one from the stack, so a token
could only recurse once: "(()())" was not matched by a list of nested lists.
---
 libs/asts/applications/application.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 0212ee9..db8459a 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -510,17 +510,29 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 }
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
+	// a nested token has its own lines, which begin with those of the enclosing one to avoid infinite loops:
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
-		stackMap[tokenName] = &stack{
-			token: token,
-			lines: map[int][]byte{},
+	enclosing, isNested := stackMap[tokenName]
+	current := &stack{
+		token: token,
+		lines: map[int][]byte{},
+	}
+
+	if isNested && enclosing.token == token {
+		for idx, data := range enclosing.lines {
+			current.lines[idx] = data
 		}
 	}
 
+	stackMap[tokenName] = current
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
-	delete(stackMap, tokenName)
+	if isNested {
+		stackMap[tokenName] = enclosing
+	} else {
+		delete(stackMap, tokenName)
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From e97ea1dd93adc062cbee3be4062f3fa6cf2d2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 27/42] fix: stop an everything at any line of its exception,
 and handle its escapes

Only the first line of the exception was verified, its tokens were matched in
reverse as well, two consecutive escaped exceptions ended the everything, and an
escaped exception at the end of the data panicked.
---
 libs/asts/applications/application.go | 186 +++++++++++++-------------
 1 file changed, 96 insertions(+), 90 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index db8459a..c023a12 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -603,6 +603,10 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	if isReverse {
+		return app.reverseBlock(token, stackMap, block, escape, channels, prevData, currentData)
+	}
+
 	tokenName := token.Name()
 	list := []trees.Line{}
 	lines := block.Lines()
@@ -629,126 +633,128 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 		currentStack[tokenName].lines[idx] = remaining
 
-		// if the line is in reverse:
-		if isReverse {
-			previousData := prevData
-			contentsList := []trees.Content{}
+		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
+		if err != nil {
+			continue
+		}
 
-			for {
-				if len(remaining) <= 0 {
-					break
-				}
+		// add the line to the list:
+		list = append(list, lineIns)
+		if lineIns.IsSuccessful() {
+			remaining = rem
+			currentStack = retStack
+			break
+		}
+	}
 
-				if escape != nil {
-					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
-					if err == nil {
-						if escapeTree.Block().HasSuccessful() {
-							if escapeTree.HasRemaining() {
-								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
-								if err == nil && treeLine.IsSuccessful() {
-									amount := len(escapeRemaining) - len(rem)
-									values := escapeRemaining[:amount]
-									for _, oneValue := range values {
-										value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentsList = append(contentsList, contentIns)
-									}
-
-									previousData = escapeRemaining
-									remaining = escapeRemaining[amount:]
-								}
-							}
-						}
-					}
-				}
+	// if there is no line:
+	if len(list) <= 0 {
+		return nil, remaining, currentStack, nil
+	}
 
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
-				if err == nil {
-					break
-				}
+	blockIns, err := app.treeBlockBuilder.Create().WithLines(list).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
 
-				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+	return blockIns, remaining, currentStack, nil
+}
 
-				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+func (app *application) reverseBlock(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	remaining := currentData
+	previousData := prevData
+	contentsList := []trees.Content{}
+	for {
+		if len(remaining) <= 0 {
+			break
+		}
 
-				contentsList = append(contentsList, contentIns)
-				previousData = remaining
-				remaining = remaining[1:]
+		// an escaped token is part of the contents, without its escape:
+		values := remaining[:1]
+		after := remaining[1:]
+		isEscaped := false
+		if escape != nil {
+			escaped, isMatch := app.matchToken(escape, stackMap, channels, previousData, remaining)
+			if isMatch {
+				rem, isMatch := app.matchToken(token, stackMap, channels, remaining, escaped)
+				if isMatch {
+					isEscaped = true
+					values = escaped[:len(escaped)-len(rem)]
+					after = rem
+				}
 			}
+		}
 
-			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-			if err != nil {
-				return nil, nil, nil, err
+		if !isEscaped {
+			_, isMatch := app.matchToken(token, stackMap, channels, previousData, remaining)
+			if isMatch {
+				break
 			}
+		}
 
-			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+		for _, oneValue := range values {
+			value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
 			if err != nil {
 				return nil, nil, nil, err
 			}
 
-			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
-				elementIns,
-			}).Now()
+			contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
 			if err != nil {
 				return nil, nil, nil, err
 			}
 
-			lineIns, err := app.treeLineBuilder.Create().
-				WithIndex(uint(idx)).
-				WithGrammar(oneLine).
-				WithElements(elements).
-				IsReverse().
-				Now()
+			contentsList = append(contentsList, contentIns)
+		}
 
-			if err != nil {
-				return nil, nil, nil, err
-			}
+		previousData = remaining
+		remaining = after
+	}
 
-			list = append(list, lineIns)
-			break
-		}
+	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
 
-		// the line is NOT in reverse:
-		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
-		if err != nil {
-			continue
-		}
+	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
 
-		// add the line to the list:
-		list = append(list, lineIns)
-		if lineIns.IsSuccessful() {
-			remaining = rem
-			currentStack = retStack
-			break
-		}
+	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
+		elementIns,
+	}).Now()
+	if err != nil {
+		return nil, nil, nil, err
 	}
 
-	// if there is no line:
-	if len(list) <= 0 {
-		return nil, remaining, currentStack, nil
+	lineIns, err := app.treeLineBuilder.Create().
+		WithIndex(0).
+		WithGrammar(block.Lines()[0]).
+		WithElements(elements).
+		IsReverse().
+		Now()
+
+	if err != nil {
+		return nil, nil, nil, err
 	}
 
-	blockIns, err := app.treeBlockBuilder.Create().WithLines(list).Now()
+	blockIns, err := app.treeBlockBuilder.Create().WithLines([]trees.Line{
+		lineIns,
+	}).Now()
 	if err != nil {
 		return nil, nil, nil, err
 	}
 
-	return blockIns, remaining, currentStack, nil
+	return blockIns, remaining, stackMap, nil
+}
+
+func (app *application) matchToken(token grammars.Token, stackMap map[string]*stack, channels grammars.Channels, prevData []byte, currentData []byte) ([]byte, bool) {
+	tree, _, err := app.token(token, stackMap, nil, channels, false, prevData, currentData)
+	if err != nil || !tree.Block().HasSuccessful() {
+		return nil, false
+	}
+
+	return tree.Remaining(), true
 }
 
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
-- 
2.43.0


From 94cdea8abca7daa42b246ed8cfdad79fd8a9d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 28/42] fix: skip the whole data matched by a channel

The escapes matched by a channel are not part of its bytes, so using the amount
of bytes left the end of the channel in the data.
---
 libs/asts/applications/application.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index c023a12..630105f 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1044,8 +1044,11 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			rem := []byte{}
+			if tree.HasRemaining() {
+				rem = tree.Remaining()
+			}
+
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From b53716462a33d1d56a4cb93319b05b126bdcc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 29/42] fix: include the prefix of a value in the bytes of its
 content

The bytes of an element contain it, those of its contents did not.
---
 libs/asts/domain/trees/content.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..8944562 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,13 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		value := obj.Value()
+		if includeChannels && value.HasPrefix() {
+			output = append(output, value.Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, value.Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From 8ac54a8a7b078ef540464c6b9f6723b2e7cb06d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 30/42] fix: support a grammar without any suite in the
 coverage reports

Uncovered panicked on a grammar that has no test suite.
---
 libs/asts/applications/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 630105f..b919ba7 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -154,6 +154,10 @@ func (app *application) Coverages(grammar grammars.Grammar) (coverages.Coverages
 // Covered returns the covered tokens
 func (app *application) Covered(coverages coverages.Coverages) (map[string]map[uint]map[uint]string, error) {
 	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages == nil {
+		return coveredElements, nil
+	}
+
 	err := app.findCoveraredElements(coverages, &coveredElements)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c916c1e1814a3df5f3f3a30133aa671799db81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 31/42] fix: report the covered elements at their index in the
 grammar

The index of the element in the tree was used: after an optional element that is
missing, the covered elements were reported at the index of the previous one.
---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index b919ba7..5fb98e6 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -465,11 +465,20 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 	line := block.Successful()
 	index := line.Index()
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	containers := line.Grammar().Containers()
+	containerIdx := 0
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
+		// find the container of the element, the containers without content have no element:
+		for containerIdx < len(containers) && containers[containerIdx] != oneElement.Grammar() {
+			containerIdx++
+		}
+
+		elIdx := containerIdx
+		containerIdx++
 		elementName := oneElement.Grammar().Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
-- 
2.43.0


From b5cfc2cfcc1fc70858d22414ac2176c4a8319ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 32/42] fix: return no content when the index of a reverse
 element is too big

The query panicked instead.
---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From 1c5de4eeed379bf1d60458d5eb71b8ea8f17b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 33/42] fix: return an error when a single content is queried
 and there is none

The query panicked instead.
---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From e8c4751d560981063921ec652a10b25b7372bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 34/42] fix: execute the value of an assignment once

An assigned value that is attached to an application was executed again every
time the application was executed, and could then be a different value.
---
 libs/interpreters/applications/application.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libs/interpreters/applications/application.go b/libs/interpreters/applications/application.go
index 716b7ad..1b4a7a9 100644
--- a/libs/interpreters/applications/application.go
+++ b/libs/interpreters/applications/application.go
@@ -413,24 +413,25 @@ func (app *application) compileModule(
 
 // Execute executes a program
 func (app *application) Execute(input []interface{}, program programs.Program) ([]interface{}, error) {
-	valueHashes := map[string]interface{}{}
+	values := map[programs.Value]interface{}{}
 	valueIndexes := map[uint]interface{}{}
 	instructions := program.Instructions().List()
 	for idx, oneInstruction := range instructions {
 		if oneInstruction.IsValue() {
 			value := oneInstruction.Value()
-			ins, err := app.executeValue(input, valueHashes, value)
+			ins, err := app.executeValue(input, values, value)
 			if err != nil {
 				str := fmt.Sprintf("there was an error while executing an assignment (index: %d): %s", idx, err.Error())
 				return nil, errors.New(str)
 			}
 
+			values[value] = ins
 			valueIndexes[uint(idx)] = ins
 			continue
 		}
 
 		execution := oneInstruction.Execution()
-		_, err := app.execute(input, valueHashes, execution)
+		_, err := app.execute(input, values, execution)
 		if err != nil {
 			appIndex := execution.Index()
 			moduleIndex := execution.Module().Index()
@@ -456,7 +457,7 @@ func (app *application) Execute(input []interface{}, program programs.Program) (
 	return filtered, nil
 }
 
-func (app *application) executeValue(input []interface{}, values map[string]interface{}, value programs.Value) (interface{}, error) {
+func (app *application) executeValue(input []interface{}, values map[programs.Value]interface{}, value programs.Value) (interface{}, error) {
 	if value.IsInput() {
 		pInputIndex := value.Input()
 		if *pInputIndex >= uint(len(input)) {
@@ -485,19 +486,25 @@ func (app *application) executeValue(input []interface{}, values map[string]inte
 	return app.execute(input, values, execution)
 }
 
-func (app *application) execute(input []interface{}, values map[string]interface{}, execution programs.Application) (interface{}, error) {
+func (app *application) execute(input []interface{}, values map[programs.Value]interface{}, execution programs.Application) (interface{}, error) {
 	module := execution.Module()
 	parameters := map[uint]interface{}{}
 	if execution.HasAttachments() {
 		attachments := execution.Attachments().List()
 		for _, oneAttachment := range attachments {
 			attachedValue := oneAttachment.Value()
+			local := oneAttachment.Local()
+			if ins, ok := values[attachedValue]; ok {
+				// the value was already assigned, so it must not be executed again:
+				parameters[local] = ins
+				continue
+			}
+
 			ins, err := app.executeValue(input, values, attachedValue)
 			if err != nil {
 				return nil, err
 			}
 
-			local := oneAttachment.Local()
 			parameters[local] = ins
 		}
 	}
-- 
2.43.0


From db0f04e073fa35d3a18a354b4d66d2aec82b4fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 35/42] fix: copy the hash of a content when it is written

---
 libs/databases/infrastructure/files/application.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index c637902..0a9cf9a 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -400,9 +400,10 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		// copy the data, the caller can modify its own before the commit:
+		// copy the hash and the data, the caller can modify its own before the commit:
+		copiedHash := hash.Bytes()
 		copied := append([]byte{}, data...)
-		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(copied).WithKind(kind).Now()
+		contentIns, err := app.contentBuilder.Create().WithHash(copiedHash).WithData(copied).WithKind(kind).Now()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f2afefdf809b55b84788872f8cff8638d3c4c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 36/42] fix: report a database as created once it is created

---
 libs/databases/infrastructure/files/application.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0a9cf9a..ac9766b 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -121,7 +121,9 @@ func (app *application) New(name string) error {
 		return err
 	}
 
-	return file.Close()
+	// the database is now created and nothing was written to it, so a failure to close it must not report it as failed:
+	file.Close()
+	return nil
 }
 
 // Delete deletes an existing database
-- 
2.43.0


From 99ac4b4b04b0edd302d20c7377ee0b2a8ea2acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 37/42] fix: a commit with a truncated parent is refused
 instead of decoded with another parent

---
 libs/databases/domain/references/commit_adapter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index d699751..4a4abd5 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -121,6 +121,12 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	}
 
 	if len(remaining) > 0 {
+		parentBytesLength := len(remaining) - 1
+		if parentBytesLength != hash.Size {
+			str := fmt.Sprintf("the parent was expected to contain %d bytes in order to convert to a Commit instance, %d provided", hash.Size, parentBytesLength)
+			return nil, errors.New(str)
+		}
+
 		pParentHash, err := app.hashAdapter.FromBytes(remaining[1:])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b6f4950dc040eab0c09abe02e6f390923de57b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 38/42] fix: a recursive fetcher applies its enclosing query
 after a sibling of the same token

---
 libs/queries/applications/application.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index db86f4e..1128d42 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -47,7 +47,15 @@ func (app *application) queryFetch(query queries.Query, tree trees.Tree, previou
 		previous = map[string]queries.Query{}
 	}
 
-	previous[query.Token().Name()] = query
+	name := query.Token().Name()
+	if enclosing, ok := previous[name]; ok {
+		// once executed, the name is again the one of the enclosing query:
+		defer func() {
+			previous[name] = enclosing
+		}()
+	}
+
+	previous[name] = query
 	return app.queryInstance(query, contentsList, previous)
 }
 
-- 
2.43.0


From 56c472dbab418edf92d5e859688260312f53cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:26 +0000
Subject: [PATCH 39/42] fix: a value assignment is a number, it no longer takes
 all that follows it

---
 instances/grammars/grammars/grammar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instances/grammars/grammars/grammar.go b/instances/grammars/grammars/grammar.go
index fa3751a..636496e 100644
--- a/instances/grammars/grammars/grammar.go
+++ b/instances/grammars/grammars/grammar.go
@@ -360,7 +360,8 @@ func (app *grammar) valueAssignmentToken() grammars.Token {
 			app.component.Line().FromElements([]grammars.Element{
 				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
 				app.component.Element().FromValue([]byte(assignmentSign)[0]),
-				app.component.Element().FromToken(app.token.AnyByte(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromValue([]byte(blockSuffix)[0]),
 			}),
 		}),
 		app.component.Suite().Suites(map[string]bool{
-- 
2.43.0


From 246d3bc946cf649771cc5380b8694ff24de1d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 40/42] fix: the token of all the characters of a text matches
 its bytes

---
 instances/grammars/components/tokens/token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index 903c412..bd52f79 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -37,8 +37,8 @@ func createToken(
 // AllCharacters returns the all character token
 func (app *token) AllCharacters(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
+	for _, oneValue := range []byte(values) {
+		element := app.element.FromValue(oneValue)
 		elementsList = append(elementsList, element)
 	}
 
-- 
2.43.0


From bea092f6175be04869f1d5739fb436723aa68b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 41/42] fix: the token of any character of a text matches all
 the bytes of the character

---
 instances/grammars/components/tokens/token.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index bd52f79..bf5369d 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -50,16 +50,20 @@ func (app *token) AllCharacters(tokenName string, values string) grammars.Token
 // AnyCharacter returns the any character token
 func (app *token) AnyCharacter(tokenName string, values string) grammars.Token {
 	suitesData := map[string]bool{}
-	elementsList := []grammars.Element{}
+	linesList := []grammars.Line{}
 	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
-		elementsList = append(elementsList, element)
+		elementsList := []grammars.Element{}
+		for _, oneByte := range []byte(string(oneValue)) {
+			elementsList = append(elementsList, app.element.FromValue(oneByte))
+		}
+
+		linesList = append(linesList, app.line.FromElements(elementsList))
 		suitesData[string(oneValue)] = true
 	}
 
-	return app.AnyElement(
+	return app.FromBlock(
 		tokenName,
-		elementsList,
+		app.block.FromLines(linesList),
 		app.suite.Suites(suitesData),
 	)
 }
-- 
2.43.0


From f5e7deeda2b3840db9c9c3515e60161dac6c21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:07 +0000
Subject: [PATCH 42/42] fix: name the elements covered in an external grammar
 by its own token

---
 libs/asts/applications/application.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 5fb98e6..03f8a87 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -494,11 +494,18 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index][castedElIdx] = elementName
 		}
 
+		// the elements of an external grammar are those of its root token, whatever the name of the external:
+		subTokenName := elementName
+		container := oneElement.Grammar()
+		if container.IsElement() && container.Element().Content().IsExternal() {
+			subTokenName = container.Element().Content().External().Grammar().Root().Name()
+		}
+
 		contents := oneElement.Contents().List()
 		for _, oneContent := range contents {
 			if oneContent.IsTree() {
 				subBlock := oneContent.Tree().Block()
-				err := app.findCoveraredElementsFromBlock(elementName, subBlock, &covered)
+				err := app.findCoveraredElementsFromBlock(subTokenName, subBlock, &covered)
 				if err != nil {
 					return err
 				}
-- 
2.43.0

