From 9409da7674b7c6f0897e9b52cece289d88c066ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 01/43] fix: token: keep the last rune of a document

Tokenize used the index of the last rune as the end of the data, so the
last character of every document was ignored: the last word lost its last
letter (or the document its last word), and equal texts got different blots
depending on whether they ended the file.
---
 token/t.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/t.go b/token/t.go
index b5ff4af..ee0d891 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,7 +86,7 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
-	if j < i {
+	if i = len(d); j < i {
 		if inWord {
 			dst = append(dst,
 				T{
-- 
2.43.0


From 94882504058ac748449daff21534efa912069eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 02/43] fix: NewConfig: apply seqLen to the blotter

NewConfig left BlotConfig.SeqLen at its default, so every sequence length
other than 10 was rejected as inconsistent.
---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index 36ded45..689f1fc 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen / cfg.BlotConfig.Interleave
 	err = cfg.check()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7a3febab3638f6820c1ace028afbcd06aa557da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 03/43] fix: query: Next after the last batch returns io.EOF

When the last batch was partial, nilCount had reached n already; the next
call stepped past the equality test and looped for ever.
---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 115a5a7..e19c01c 100644
--- a/query.go
+++ b/query.go
@@ -94,7 +94,7 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 		shardState := state.shardStates[state.i]
 		if shardState == nil {
 			state.nilCount++
-			if state.nilCount == state.n {
+			if state.nilCount >= state.n {
 				if n == 0 {
 					err = io.EOF
 					return
-- 
2.43.0


From 8f0c9e1fd7c5c6663bac76c54b0d2c64f1bdad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 04/43] fix: query: Next with a limited number of docs loses no
 documents

Next advanced a second time, with the index of whichever shard fillBlot had
moved to, and took a last single document of a blot for a blot with one
document: blots were skipped, documents dropped, and a capacity of one gave
nothing at all.
---
 query.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/query.go b/query.go
index e19c01c..7491945 100644
--- a/query.go
+++ b/query.go
@@ -108,12 +108,17 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		pos := state.i
+		_, err = q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
 			return
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
+		if len(dstBlot.Docs) == 0 || shardState.Total <= 1 {
+			// fillBlot advances when it reaches the end of a blot,
+			// and then state.i may be another shard.
+			if state.shardStates[pos] == shardState {
+				q.advance(shardState, pos)
+			}
 			if lim {
 				dstBlot.Docs = dstBlot.Docs[:0]
 			} else {
-- 
2.43.0


From 4b63e0cd500541c6345cf59e0f03594ea74ae770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 05/43] fix: dmd: concurrent lookups do not mix up documents

Lookup moved the shared file offset and then read from it, so concurrent
queries of one Index could return each other's documents.
---
 dmd/t.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..507bae2 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -48,13 +47,8 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = t.file.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 6fd9d9e3b80f332f7dc6b20bf2e76a72bbd4c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 06/43] fix: lock: Unlock unlocks

Unlock converted the lock to a shared one and kept it.
---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From ff35e25ce73f181059d94423c95e0f9bb6793920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 07/43] fix: OpenIndexer takes the exclusive lock

It took a shared lock, so two appenders, or an appender and readers, worked
on the same files at once.
---
 indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexer.go b/indexer.go
index fdfceb9..fa014cc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -121,7 +121,7 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
+	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0ca920bcc511c99b45cdf998d45e576941fa7804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 08/43] fix: FindBlots: positions are relative to the
 document's start

For a document that does not start at 0 the slice was out of range or the
wrong text.
---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index d04621b..f100c16 100644
--- a/index.go
+++ b/index.go
@@ -220,7 +220,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
-- 
2.43.0


From 2660c9eb6199f29fcd4ec30c416c4633c4d66eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 09/43] fix: dmd: NumDocs does not count the reserved record

Stats reported one document more than the index has.
---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index 507bae2..70276fb 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -43,7 +43,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // document id 0 is reserved
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From e0d4223e76d94135b01a4c02156acccf2a61b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 10/43] fix: dupi index: report files that could not be opened
 or added

The error which ends the walk was dropped: the command exited 0 although
the rest of the tree was not indexed.
---
 cmd/dupi/index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..5cf86a5 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -139,6 +139,9 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	werr := filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	if err == nil {
+		err = werr
+	}
 	return err
 }
-- 
2.43.0


From b1e8fe5c7276fdfd2a2d71927c2928697189e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 11/43] fix: dupi blot -offsets: give the position of each
 blot's text

Positions were looked up among all tokens, not just words.
---
 cmd/dupi/blot.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..7f04e83 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -72,6 +72,14 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	var toks []token.T
 	if *bc.offsets {
 		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		j := 0
+		for i := range toks {
+			if toks[i].Tag == token.Word {
+				toks[j] = toks[i]
+				j++
+			}
+		}
+		toks = toks[:j]
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-- 
2.43.0


From eb67772dfdc55a88fcba6e7a4b4af044957a0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 12/43] fix: shard: a failed flush loses no posts and can be
 retried

flushTo linked a block before writing it and, on error, left the link's
bytes among the posts. The error of a flush during indexing is only logged,
so Close went on to write a corrupt posting list and reported success.
---
 internal/shard/poster.go | 27 +++++++++++++++++----------
 internal/shard/posts.go  |  6 ++++++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..ec6ea79 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -154,15 +154,6 @@ func (p *poster) flushTo(f *os.File) error {
 		return err
 	}
 	end := fi.Size()
-	if p.link != -1 {
-		binary.BigEndian.PutUint64(p.buf[:8], uint64(end))
-		_, err = f.WriteAt(p.buf[:8], p.link)
-		if err != nil {
-			return err
-		}
-	} else {
-		p.head = end
-	}
 	_, err = f.Seek(end, io.SeekStart)
 	if err != nil {
 		return err
@@ -170,7 +161,13 @@ func (p *poster) flushTo(f *os.File) error {
 	var z [8]byte
 	var nolink = int64(-1)
 	binary.BigEndian.PutUint64(z[:], uint64(nolink))
+	n := len(p.posts)
 	p.posts = append(p.posts, z[:]...)
+	defer func() {
+		// on error, keep the posts and forget the link
+		// so that a later flush can succeed.
+		p.posts = p.posts[:n]
+	}()
 
 	lenSz, err := p.writeVarint64(f, int64(len(p.posts)))
 	if err != nil {
@@ -183,7 +180,17 @@ func (p *poster) flushTo(f *os.File) error {
 	if zz != len(p.posts) {
 		panic(z)
 	}
+	// the block is in place, link it.
+	if p.link != -1 {
+		binary.BigEndian.PutUint64(p.buf[:8], uint64(end))
+		_, err = f.WriteAt(p.buf[:8], p.link)
+		if err != nil {
+			return err
+		}
+	} else {
+		p.head = end
+	}
 	p.link = end + int64(lenSz) + int64(len(p.posts)) - 8
-	p.posts = p.posts[:0]
+	n = 0
 	return nil
 }
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..8701357 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,12 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 {
+		return fmt.Errorf("invalid length of post block: %d", v)
+	}
+	if v > int64(len(p.buf)) {
+		p.buf = make([]byte, v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
-- 
2.43.0


From cdb7ec0ea5476a9576be0499ec3a91be05ac736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 13/43] fix: dmd: a failed flush does not shift later records

Records were appended at the end of the file, whatever it was: after a
flush which failed half way, a retry (or the next session) wrote its records
at the wrong document ids.
---
 dmd/adder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..57a1b45 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -75,12 +75,14 @@ func (t *Adder) Close() error {
 }
 
 func (t *Adder) flush() error {
-	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(t.path, os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	defer f.Close()
-	_, err = f.Seek(0, io.SeekEnd)
+	// not the end of the file: part of a record may be there
+	// from a flush which failed.
+	_, err = f.Seek(int64(t.flushed)*rcdSize, io.SeekStart)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 7fc4b605cc19b4712dd4997f0fbbe6fa67d5b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 14/43] fix: ReadConfigFromRoot: the index is where it was read
 from

The stored root won, so opening an index which had been moved failed, and
opening a copy worked on the original.
---
 config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 689f1fc..46e0da4 100644
--- a/config.go
+++ b/config.go
@@ -112,7 +112,13 @@ func ReadConfigFromRoot(root string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	res, err := ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	// the index may have been moved or copied
+	res.IndexRoot = cfg.IndexRoot
+	return res, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
-- 
2.43.0


From 97b1a68414e58f90781cb96800f0c18320b81aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 15/43] fix: one lock per index, however its root is spelled

OpenIndex locked a path made from the root as given, indexers one made from
the absolute root: opened by a relative path or with a trailing slash, a
reader did not exclude a writer.
---
 index.go   | 9 +++++++--
 indexer.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index f100c16..df293a0 100644
--- a/index.go
+++ b/index.go
@@ -20,6 +20,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/blotter"
 	"github.com/go-air/dupi/dmd"
@@ -36,8 +37,12 @@ type Index struct {
 	shards []shard.Index
 }
 
-func OpenIndex(root string) (*Index, error) {
-	var err error
+func OpenIndex(root string) (_ *Index, err error) {
+	// the lock is that of the absolute root, as for indexers
+	root, err = filepath.Abs(root)
+	if err != nil {
+		return nil, err
+	}
 	cfg := &Config{IndexRoot: root}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
diff --git a/indexer.go b/indexer.go
index fa014cc..0f0a0bc 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,7 @@ package dupi
 import (
 	"log"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -40,7 +41,13 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+	root, err := filepath.Abs(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
+	abscfg := *cfg
+	abscfg.IndexRoot = root
+	cfg = &abscfg
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From b2d56f7429c2aa071f8a615319ceeeec2c7e7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 16/43] fix: opening an index which fails releases its lock and
 files

Every error after taking the lock left it held until the process ended, so
a failed open blocked each later indexer.
---
 index.go                  | 23 ++++++++++++++++++++---
 indexer.go                | 30 +++++++++++++++++++++++++++---
 internal/shard/index.go   |  3 +++
 internal/shard/indexer.go | 10 ++++++++++
 4 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/index.go b/index.go
index df293a0..8936cad 100644
--- a/index.go
+++ b/index.go
@@ -49,6 +49,12 @@ func OpenIndex(root string) (_ *Index, err error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.closeFiles()
+			res.lock.Close()
+		}
+	}()
 	if err := res.lock.LockShared(); err != nil {
 		return nil, err
 	}
@@ -80,10 +86,21 @@ func OpenIndex(root string) (_ *Index, err error) {
 	return res, nil
 }
 
-func (x *Index) Close() error {
+func (x *Index) Close() (err error) {
+	defer func() {
+		if lerr := x.lock.Close(); err == nil {
+			err = lerr
+		}
+	}()
+	return x.closeFiles()
+}
+
+// closeFiles closes what is open, but keeps the lock.
+func (x *Index) closeFiles() error {
 	var err error
-	defer func() { err = x.lock.Close() }()
-	err = x.dmd.Close()
+	if x.dmd != nil {
+		err = x.dmd.Close()
+	}
 	for i := range x.shards {
 		s := &x.shards[i]
 		serr := s.Close()
diff --git a/indexer.go b/indexer.go
index 0f0a0bc..4941803 100644
--- a/indexer.go
+++ b/indexer.go
@@ -40,7 +40,7 @@ type Indexer struct {
 	fnames  *fnames
 }
 
-func IndexerFromConfig(cfg *Config) (*Indexer, error) {
+func IndexerFromConfig(cfg *Config) (_ *Indexer, err error) {
 	root, err := filepath.Abs(cfg.IndexRoot)
 	if err != nil {
 		return nil, err
@@ -53,6 +53,11 @@ func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.abort()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
@@ -120,18 +125,29 @@ func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
 // opens an index from a config.  cfg
 // actually is read from the index as a first
 // step, and this completes opening.
-func openFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func openFromConfig(cfg *Config) (_ *Indexer, err error) {
 	res := &Indexer{config: cfg}
 	// lock file
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			res.abort()
+		}
+	}()
 	err = res.lock.Lock()
 	if err != nil {
 		return nil, err
 	}
+	// another indexer may have replaced the index
+	// while this one waited.
+	cfg, err = ReadConfigFromRoot(cfg.IndexRoot)
+	if err != nil {
+		return nil, err
+	}
+	res.config = cfg
 	// internal setup
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
@@ -166,6 +182,14 @@ func openFromConfig(cfg *Config) (*Indexer, error) {
 	return res, nil
 }
 
+// abort ends an indexer which could not be opened.
+func (x *Indexer) abort() {
+	for i := range x.shards {
+		x.shards[i].Abort()
+	}
+	x.lock.Close()
+}
+
 // write the files that apeared in added documents.
 func (x *Indexer) writeFiles() error {
 	docPath := x.config.FnamesPath()
diff --git a/internal/shard/index.go b/internal/shard/index.go
index 0fca7ad..98dfa65 100644
--- a/internal/shard/index.go
+++ b/internal/shard/index.go
@@ -46,6 +46,9 @@ func (x *Index) Init(path string) error {
 }
 
 func (x *Index) Close() error {
+	if x.postFile == nil {
+		return nil
+	}
 	return x.postFile.Close()
 }
 
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..37ccc69 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -117,6 +117,16 @@ func (x *Indexer) Close() error {
 	return x.flushIix()
 }
 
+// Abort closes the indexer without flushing anything.
+func (x *Indexer) Abort() {
+	if x.postChn != nil {
+		close(x.postChn)
+	}
+	if x.postFile != nil {
+		x.postFile.Close()
+	}
+}
+
 func (x *Indexer) flushIix() error {
 	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
 		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-- 
2.43.0


From 4a1d886d7f012d3aad3c8eedf90e32e138179947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 17/43] fix: RemoveIndex and RemoveIndexer remove under the
 lock

They unlocked first, so an indexer waiting for the lock could create a new
index, or start adding to this one, and have it deleted under it.
---
 indexer.go | 6 ++++++
 remove.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/indexer.go b/indexer.go
index 4941803..b1f4063 100644
--- a/indexer.go
+++ b/indexer.go
@@ -226,6 +226,12 @@ func (x *Indexer) readfiles() error {
 // with the index to disk.
 func (x *Indexer) Close() error {
 	defer x.lock.Close()
+	return x.flush()
+}
+
+// flush ends indexing and writes everything to disk,
+// but keeps the lock.
+func (x *Indexer) flush() error {
 	for i := 0; i < x.config.NumShatters; i++ {
 		x.shatter <- &shatterReq{shutdown: true}
 		// no more shatters running, each waits
diff --git a/remove.go b/remove.go
index 2939bcb..3698783 100644
--- a/remove.go
+++ b/remove.go
@@ -17,7 +17,10 @@ package dupi
 import "os"
 
 func RemoveIndex(idx *Index) error {
-	errc := idx.Close()
+	// remove before unlocking: the next holder of the lock
+	// may create an index at the same place.
+	defer idx.lock.Close()
+	errc := idx.closeFiles()
 	errrm := os.RemoveAll(idx.Root())
 	if errc == nil {
 		return errrm
@@ -26,7 +29,8 @@ func RemoveIndex(idx *Index) error {
 }
 
 func RemoveIndexer(idx *Indexer) error {
-	errc := idx.Close()
+	defer idx.lock.Close()
+	errc := idx.flush()
 	errrm := os.RemoveAll(idx.Root())
 	if errc == nil {
 		return errrm
-- 
2.43.0


From 196d7893bdb7c0e7fe92b8820db0cf48b90a5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 18/43] fix: shard: posts of a session which died are not part
 of the index

Blocks are linked into the posting lists while indexing. When the process
died before Close, readers and the next indexer followed those links past
the committed number of posts, to documents which do not exist or to blocks
which were never written.
---
 internal/shard/poster.go     | 10 +++++++++-
 internal/shard/read_state.go |  9 +++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index ec6ea79..8a7abf0 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -113,6 +113,7 @@ func (p *poster) readToLink(f *os.File) error {
 	}
 	buf := make([]byte, flushRate+binary.MaxVarintLen64+8+10)
 	head := p.head
+	seen := uint32(0)
 	for {
 		v, n, err := readVarintAt(f, head)
 		if err != nil {
@@ -129,7 +130,14 @@ func (p *poster) readToLink(f *os.File) error {
 			return err
 		}
 		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
-		if link == -1 {
+		for _, b := range buf[:v-8] {
+			if b < 0x80 {
+				seen++
+			}
+		}
+		if link == -1 || seen >= p.total {
+			// any link from here belongs to a session
+			// which was not committed.
 			p.link = head + n + v - 8
 			return nil
 		} else {
diff --git a/internal/shard/read_state.go b/internal/shard/read_state.go
index 38bfc90..aadcabb 100644
--- a/internal/shard/read_state.go
+++ b/internal/shard/read_state.go
@@ -24,10 +24,19 @@ type ReadState struct {
 	Posts *Posts
 	Error error
 	rdr   io.ReaderAt
+	n     uint32 // how many docids were read
 }
 
 func (s *ReadState) Next() (uint32, error) {
+	if s.n >= s.Total {
+		// what follows, if anything, was never committed
+		s.Error = io.EOF
+		return 0, s.Error
+	}
 	var docid uint32
 	docid, s.Error = s.Posts.next(s.rdr)
+	if s.Error == nil {
+		s.n++
+	}
 	return docid, s.Error
 }
-- 
2.43.0


From 73a1ff8b5573a83acc6d7bae5471a484f7bdbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 19/43] fix: a crash or error while closing leaves the index as
 it was

files.fnm, the .iix files and cfg.json were truncated and rewritten in
place, and written before what they refer to: an append which was killed or
ran out of space in Close destroyed the documents already indexed. Replace
them by renaming, in dependency order.
---
 config.go                   | 19 ++++-----------
 indexer.go                  | 21 +++++++----------
 internal/replace/replace.go | 47 +++++++++++++++++++++++++++++++++++++
 internal/shard/indexer.go   | 14 +++++------
 4 files changed, 68 insertions(+), 33 deletions(-)
 create mode 100644 internal/replace/replace.go

diff --git a/config.go b/config.go
index 46e0da4..425f524 100644
--- a/config.go
+++ b/config.go
@@ -22,6 +22,7 @@ import (
 	"path/filepath"
 
 	"github.com/go-air/dupi/blotter"
+	"github.com/go-air/dupi/internal/replace"
 	"github.com/go-air/dupi/token"
 )
 
@@ -145,23 +146,13 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
 	d, err := json.MarshalIndent(cfg, "", "\t")
 	if err != nil {
 		return err
 	}
-	_, err = f.Write(d)
-	if err != nil {
-		return err
-	}
-	d[0] = '\n'
-	_, err = f.Write(d[:1])
-	if err != nil {
+	d = append(d, '\n')
+	return replace.File(cfg.Path(), func(w io.Writer) error {
+		_, err := w.Write(d)
 		return err
-	}
-	return nil
+	})
 }
diff --git a/indexer.go b/indexer.go
index b1f4063..1dc2937 100644
--- a/indexer.go
+++ b/indexer.go
@@ -20,6 +20,7 @@ import (
 	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
+	"github.com/go-air/dupi/internal/replace"
 	"github.com/go-air/dupi/internal/shard"
 	"github.com/go-air/dupi/lock"
 	"github.com/go-air/dupi/post"
@@ -192,13 +193,7 @@ func (x *Indexer) abort() {
 
 // write the files that apeared in added documents.
 func (x *Indexer) writeFiles() error {
-	docPath := x.config.FnamesPath()
-	f, e := os.OpenFile(docPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-	if e != nil {
-		return e
-	}
-	defer f.Close()
-	return x.fnames.write(f)
+	return replace.File(x.config.FnamesPath(), x.fnames.write)
 }
 
 // Root returns the path to the root of the index 'x'.
@@ -241,15 +236,14 @@ func (x *Indexer) flush() error {
 	for i := 0; i < x.config.NumShards; i++ {
 		close(x.shards[i].PostChan())
 	}
-	if err := x.config.Write(); err != nil {
+	// what is referred to is written before what refers to it,
+	// and the config, without which there is no index, last.
+	if err := x.dmds.Close(); err != nil {
 		return err
 	}
 	if err := x.writeFiles(); err != nil {
 		return err
 	}
-	if err := x.dmds.Close(); err != nil {
-		return err
-	}
 	errs := make(chan error, len(x.shards))
 	for i := range x.shards {
 		b := &x.shards[i]
@@ -266,7 +260,10 @@ func (x *Indexer) flush() error {
 			err = ierr
 		}
 	}
-	return err
+	if err != nil {
+		return err
+	}
+	return x.config.Write()
 }
 
 // Add adds 'doc' to the index.
diff --git a/internal/replace/replace.go b/internal/replace/replace.go
new file mode 100644
index 0000000..d8b5d7e
--- /dev/null
+++ b/internal/replace/replace.go
@@ -0,0 +1,47 @@
+// Copyright 2021 the Dupi authors
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//      http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+// Package replace provides atomic replacement of files.
+package replace
+
+import (
+	"bufio"
+	"io"
+	"os"
+)
+
+// File replaces the contents of the file at path by what fn writes.  If it
+// fails, or the process dies, the file is as it was before.
+func File(path string, fn func(w io.Writer) error) error {
+	tmp := path + ".tmp"
+	f, err := os.OpenFile(tmp, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if err != nil {
+		return err
+	}
+	w := bufio.NewWriter(f)
+	err = fn(w)
+	if err == nil {
+		err = w.Flush()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
+}
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 37ccc69..83216bf 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -18,9 +18,11 @@ import (
 	"bufio"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log"
 	"os"
 
+	"github.com/go-air/dupi/internal/replace"
 	"github.com/go-air/dupi/post"
 )
 
@@ -128,15 +130,13 @@ func (x *Indexer) Abort() {
 }
 
 func (x *Indexer) flushIix() error {
-	iix, err := os.OpenFile(fmt.Sprintf("%s.iix", x.root),
-		os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-	if err != nil {
-		return err
-	}
-	defer iix.Close()
+	return replace.File(fmt.Sprintf("%s.iix", x.root), x.writeIix)
+}
+
+func (x *Indexer) writeIix(iix io.Writer) error {
 	for i := range x.ind {
 		up := &x.ind[i]
-		_, err = up.writeVarint64(iix, up.head)
+		_, err := up.writeVarint64(iix, up.head)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 92db1eb5df775858206101a0ae11a548f6ea8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 20/43] fix: Close makes the index durable

Nothing was ever synced, and so a power loss after Close could leave any
mix of old, new and empty files, or nothing.
---
 dmd/adder.go                |  4 ++++
 indexer.go                  |  6 +++++-
 internal/replace/replace.go | 22 ++++++++++++++++++++++
 internal/shard/indexer.go   |  2 +-
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 57a1b45..99094e2 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -93,6 +93,10 @@ func (t *Adder) flush() error {
 			return err
 		}
 	}
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	t.flushed += uint32(len(t.buf))
 	t.buf = t.buf[:0]
 	return nil
diff --git a/indexer.go b/indexer.go
index 1dc2937..db955c9 100644
--- a/indexer.go
+++ b/indexer.go
@@ -263,7 +263,11 @@ func (x *Indexer) flush() error {
 	if err != nil {
 		return err
 	}
-	return x.config.Write()
+	if err := x.config.Write(); err != nil {
+		return err
+	}
+	// the name of the index itself
+	return replace.SyncDir(filepath.Dir(x.config.IndexRoot))
 }
 
 // Add adds 'doc' to the index.
diff --git a/internal/replace/replace.go b/internal/replace/replace.go
index d8b5d7e..14478c6 100644
--- a/internal/replace/replace.go
+++ b/internal/replace/replace.go
@@ -19,6 +19,8 @@ import (
 	"bufio"
 	"io"
 	"os"
+	"path/filepath"
+	"runtime"
 )
 
 // File replaces the contents of the file at path by what fn writes.  If it
@@ -34,6 +36,9 @@ func File(path string, fn func(w io.Writer) error) error {
 	if err == nil {
 		err = w.Flush()
 	}
+	if err == nil {
+		err = f.Sync()
+	}
 	if cerr := f.Close(); err == nil {
 		err = cerr
 	}
@@ -42,6 +47,23 @@ func File(path string, fn func(w io.Writer) error) error {
 	}
 	if err != nil {
 		os.Remove(tmp)
+		return err
+	}
+	return SyncDir(filepath.Dir(path))
+}
+
+// SyncDir makes the names in directory dir durable.
+func SyncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil // not supported
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if cerr := d.Close(); err == nil {
+		err = cerr
 	}
 	return err
 }
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 83216bf..ab26229 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -164,7 +164,7 @@ func (x *Indexer) flushInd() error {
 			return err
 		}
 	}
-	return nil
+	return x.postFile.Sync()
 }
 
 func (x *Indexer) Serve() {
-- 
2.43.0


From b69219a778012d12995406198740c61093074c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 21/43] fix: Doc.Load: a failed load leaves the document
 unloaded

---
 doc.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/doc.go b/doc.go
index f8df994..075cfac 100644
--- a/doc.go
+++ b/doc.go
@@ -49,21 +49,23 @@ func (doc *Doc) Load() error {
 	defer f.Close()
 
 	if doc.Start == 0 && doc.End == 0 {
-		doc.Dat, err = ioutil.ReadAll(f)
+		dat, err := ioutil.ReadAll(f)
 		if err != nil {
 			return fmt.Errorf("readall: %w", err)
 		}
-		doc.End = uint32(len(doc.Dat))
+		doc.Dat = dat
+		doc.End = uint32(len(dat))
 	} else {
 		_, err = f.Seek(int64(doc.Start), io.SeekStart)
 		if err != nil {
 			return fmt.Errorf("seek: %w", err)
 		}
-		doc.Dat = make([]byte, doc.End-doc.Start)
-		_, err = f.ReadAt(doc.Dat, int64(doc.Start))
+		dat := make([]byte, doc.End-doc.Start)
+		_, err = f.ReadAt(dat, int64(doc.Start))
 		if err != nil {
-			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, len(doc.Dat), doc.Start, err)
+			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, len(dat), doc.Start, err)
 		}
+		doc.Dat = dat
 	}
 	return nil
 }
-- 
2.43.0


From 111a36e9a7a5198157166de320b9e77c9a264b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 22/43] fix: dupi index: '..' is not a hidden directory

---
 cmd/dupi/index.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 5cf86a5..8d2da45 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -109,7 +109,7 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 			*perr = err
 			return fs.SkipDir
 		}
-		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 {
+		if isHidden(entry.Name()) {
 			if entry.IsDir() {
 				return fs.SkipDir
 			}
@@ -137,6 +137,12 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 	}
 }
 
+// isHidden is whether name is of a hidden file or directory,
+// which "." and ".." are not.
+func isHidden(name string) bool {
+	return strings.HasPrefix(name, ".") && name != "." && name != ".."
+}
+
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
 	werr := filepath.WalkDir(fpath, x.mkWalkFn(&err))
-- 
2.43.0


From 5202cabdf6472c7729b092de40dd7c9c6da79ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 23/43] fix: Close which fails leaves no files open

---
 indexer.go                | 16 ++++++++++++----
 internal/shard/indexer.go |  5 +++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/indexer.go b/indexer.go
index db955c9..6de9cd8 100644
--- a/indexer.go
+++ b/indexer.go
@@ -238,10 +238,10 @@ func (x *Indexer) flush() error {
 	}
 	// what is referred to is written before what refers to it,
 	// and the config, without which there is no index, last.
-	if err := x.dmds.Close(); err != nil {
-		return err
-	}
-	if err := x.writeFiles(); err != nil {
+	if err := x.flushDocs(); err != nil {
+		for i := range x.shards {
+			x.shards[i].Discard()
+		}
 		return err
 	}
 	errs := make(chan error, len(x.shards))
@@ -270,6 +270,14 @@ func (x *Indexer) flush() error {
 	return replace.SyncDir(filepath.Dir(x.config.IndexRoot))
 }
 
+// flushDocs writes which documents there are and in which files.
+func (x *Indexer) flushDocs() error {
+	if err := x.dmds.Close(); err != nil {
+		return err
+	}
+	return x.writeFiles()
+}
+
 // Add adds 'doc' to the index.
 func (x *Indexer) Add(doc *Doc) error {
 	did, err := x.doc2Id(doc)
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index ab26229..a4b593d 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -124,6 +124,11 @@ func (x *Indexer) Abort() {
 	if x.postChn != nil {
 		close(x.postChn)
 	}
+	x.Discard()
+}
+
+// Discard closes the files of the shard without flushing.
+func (x *Indexer) Discard() {
 	if x.postFile != nil {
 		x.postFile.Close()
 	}
-- 
2.43.0


From 04145fbaee7c77abcf9d56ef891a2d305979728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 24/43] fix: results do not carry the data of documents whose
 place they take

Query.Get and Query.Next fill the documents of a bounded Blot in place. When
such a buffer was used before and its documents were loaded, the new documents
had the data of the old ones, and FindBlot and FindBlots looked for their blots
in it.
---
 index.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/index.go b/index.go
index 8936cad..0530b7e 100644
--- a/index.go
+++ b/index.go
@@ -317,5 +317,7 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
+	// not that of another document whose place it takes
+	doc.Dat = nil
 	return nil
 }
-- 
2.43.0


From 3289d8745b958e4f12727d4fb2817f3cdcb78492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 25/43] fix: configurations which cannot work are refused

No shards, no shatterers, an empty sequence or a flush rate of zero made
creating an index, or adding to it, panic or hang. Nothing is created now.
---
 config.go  | 15 ++++++++++++++-
 indexer.go |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 425f524..b8d0e60 100644
--- a/config.go
+++ b/config.go
@@ -81,7 +81,20 @@ func (cfg *Config) check() error {
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
-	return nil
+	if cfg.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
+		return fmt.Errorf("invalid sequence length: %d", cfg.SeqLen)
+	}
+	if cfg.NumShards < 1 {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatterers: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
+	_, err := token.FromConfig(&cfg.TokenConfig)
+	return err
 }
 
 func (cfg *Config) Path() string {
diff --git a/indexer.go b/indexer.go
index 6de9cd8..85aad40 100644
--- a/indexer.go
+++ b/indexer.go
@@ -42,6 +42,10 @@ type Indexer struct {
 }
 
 func IndexerFromConfig(cfg *Config) (_ *Indexer, err error) {
+	// before anything is created
+	if err := cfg.check(); err != nil {
+		return nil, err
+	}
 	root, err := filepath.Abs(cfg.IndexRoot)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 590cf0cb0500217418dba9799fe59dd04e2e7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 26/43] fix: commands whose output could not be written fail

blot, extract (but for -json), inspect, like and unblot ignored errors of
writing to the standard output, on a full disk for example, and exited with
success.
---
 cmd/dupi/blot.go    |  4 ++--
 cmd/dupi/dupi.go    | 18 ++++++++++++++++++
 cmd/dupi/extract.go | 11 +++++------
 cmd/dupi/inspect.go |  5 ++---
 cmd/dupi/like.go    |  4 ++--
 cmd/dupi/unblot.go  |  4 ++--
 6 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 7f04e83..c41cbf9 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -87,9 +87,9 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 		if *bc.offsets {
 			beg := toks[i].Pos
 			end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
-			fmt.Printf("%x %d:%d\n", b%N, beg, end)
+			fmt.Fprintf(&stdout, "%x %d:%d\n", b%N, beg, end)
 		} else {
-			fmt.Printf("%x\n", b%N)
+			fmt.Fprintf(&stdout, "%x\n", b%N)
 		}
 	}
 	return nil
diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 97f6311..734b06d 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -36,6 +36,21 @@ var scMap = map[string]Verb{
 	"inspect": newInspectCmd(),
 	"like":    newLikeCmd()}
 
+// output writes what verbs output and keeps the first error.
+type output struct {
+	err error
+}
+
+func (o *output) Write(d []byte) (int, error) {
+	n, err := os.Stdout.Write(d)
+	if o.err == nil {
+		o.err = err
+	}
+	return n, err
+}
+
+var stdout output
+
 var gFlags = flag.NewFlagSet("dupi", flag.ExitOnError)
 
 var root = gFlags.String("r", "", "index root")
@@ -109,4 +124,7 @@ func main() {
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
+	if stdout.err != nil {
+		log.Fatal(stdout.err)
+	}
 }
diff --git a/cmd/dupi/extract.go b/cmd/dupi/extract.go
index 91f924b..43f3bfd 100644
--- a/cmd/dupi/extract.go
+++ b/cmd/dupi/extract.go
@@ -21,7 +21,6 @@ import (
 	"io"
 	"log"
 	"math"
-	"os"
 
 	"github.com/go-air/dupi"
 )
@@ -97,7 +96,7 @@ func (x *extractCmd) Run(args []string) error {
 			if err != nil {
 				return err
 			}
-			_, err = os.Stdout.Write(d)
+			_, err = stdout.Write(d)
 			if err != nil {
 				return err
 			}
@@ -107,15 +106,15 @@ func (x *extractCmd) Run(args []string) error {
 					continue
 				}
 				if *x.blotonly {
-					fmt.Printf("%x\n", blot.Blot)
+					fmt.Fprintf(&stdout, "%x\n", blot.Blot)
 					continue
 				}
-				fmt.Printf("%x", blot.Blot)
+				fmt.Fprintf(&stdout, "%x", blot.Blot)
 				for i := range blot.Docs {
 					doc := &blot.Docs[i]
-					fmt.Printf(" %s@%d:%d", doc.Path, doc.Start, doc.End)
+					fmt.Fprintf(&stdout, " %s@%d:%d", doc.Path, doc.Start, doc.End)
 				}
-				fmt.Printf("\n")
+				fmt.Fprintf(&stdout, "\n")
 			}
 		}
 		for i := range shape {
diff --git a/cmd/dupi/inspect.go b/cmd/dupi/inspect.go
index 1a088e4..d21e257 100644
--- a/cmd/dupi/inspect.go
+++ b/cmd/dupi/inspect.go
@@ -19,7 +19,6 @@ import (
 	"flag"
 	"fmt"
 	"log"
-	"os"
 
 	"github.com/go-air/dupi"
 )
@@ -65,9 +64,9 @@ func (in *inspectCmd) Run(args []string) error {
 		if err != nil {
 			log.Fatal(err)
 		}
-		os.Stdout.Write(d)
+		stdout.Write(d)
 	} else {
-		fmt.Print(st)
+		fmt.Fprint(&stdout, st)
 	}
 	return nil
 }
diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 73f5f7e..009ee89 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -131,9 +131,9 @@ func doFilename(idx *dupi.Index, fname string) error {
 	sort.Slice(keys, func(i, j int) bool {
 		return found[keys[i]] < found[keys[j]]
 	})
-	fmt.Printf("like %s:\n", fname)
+	fmt.Fprintf(&stdout, "like %s:\n", fname)
 	for _, dk := range keys {
-		fmt.Printf("\t%s %d:%d\n", dk.Path, dk.start, dk.end)
+		fmt.Fprintf(&stdout, "\t%s %d:%d\n", dk.Path, dk.start, dk.end)
 	}
 	return nil
 }
diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index b1827c6..8eb1be9 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -74,9 +74,9 @@ func (ub *unblotCmd) Run(args []string) error {
 			if !*ub.all && len(ds) < 2 {
 				continue
 			}
-			fmt.Printf("text:\n'''\n%s'''\n", k)
+			fmt.Fprintf(&stdout, "text:\n'''\n%s'''\n", k)
 			for _, d := range ds {
-				fmt.Printf("\t%s %d:%d\n", d.Path, d.Start, d.End)
+				fmt.Fprintf(&stdout, "\t%s %d:%d\n", d.Path, d.Start, d.End)
 			}
 		}
 	}
-- 
2.43.0


From d5765080c8b8d520f4a2f69de27b9d21b1dc0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 27/43] fix: dupi blot: report files that could not be read

---
 cmd/dupi/blot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index c41cbf9..fcc5317 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -49,12 +49,14 @@ func (b *blotCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
+	var reterr error
 	for _, fname := range b.flags.Args() {
 		if err = b.doFilename(fname, idx); err != nil {
 			log.Printf("error processing %s: %s", fname, err)
+			reterr = err
 		}
 	}
-	return nil
+	return reterr
 }
 
 func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
-- 
2.43.0


From c78ff57758045775fd7d90b88e98755e83367086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 28/43] fix: indexes and indexers which are closed stay closed

Closing, removing or adding to a closed Indexer waited forever, and
removing a closed Index removed, without its lock, whatever was by then
in its place.
---
 index.go   |  6 ++++++
 indexer.go |  9 +++++++++
 remove.go  | 12 +++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/index.go b/index.go
index 0530b7e..98ba40d 100644
--- a/index.go
+++ b/index.go
@@ -21,6 +21,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sync/atomic"
 
 	"github.com/go-air/dupi/blotter"
 	"github.com/go-air/dupi/dmd"
@@ -35,6 +36,8 @@ type Index struct {
 	dmd    *dmd.T
 	fnames *fnames
 	shards []shard.Index
+
+	closed int32 // set once closing or removing has begun
 }
 
 func OpenIndex(root string) (_ *Index, err error) {
@@ -87,6 +90,9 @@ func OpenIndex(root string) (_ *Index, err error) {
 }
 
 func (x *Index) Close() (err error) {
+	if !atomic.CompareAndSwapInt32(&x.closed, 0, 1) {
+		return os.ErrClosed
+	}
 	defer func() {
 		if lerr := x.lock.Close(); err == nil {
 			err = lerr
diff --git a/indexer.go b/indexer.go
index 85aad40..2987e0b 100644
--- a/indexer.go
+++ b/indexer.go
@@ -18,6 +18,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sync/atomic"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/replace"
@@ -39,6 +40,8 @@ type Indexer struct {
 	shatter chan *shatterReq
 	shards  []shard.Indexer
 	fnames  *fnames
+
+	closed int32 // set once closing or removing has begun
 }
 
 func IndexerFromConfig(cfg *Config) (_ *Indexer, err error) {
@@ -224,6 +227,9 @@ func (x *Indexer) readfiles() error {
 // Close attempts to flush all data associated
 // with the index to disk.
 func (x *Indexer) Close() error {
+	if !atomic.CompareAndSwapInt32(&x.closed, 0, 1) {
+		return os.ErrClosed
+	}
 	defer x.lock.Close()
 	return x.flush()
 }
@@ -284,6 +290,9 @@ func (x *Indexer) flushDocs() error {
 
 // Add adds 'doc' to the index.
 func (x *Indexer) Add(doc *Doc) error {
+	if atomic.LoadInt32(&x.closed) != 0 {
+		return os.ErrClosed
+	}
 	did, err := x.doc2Id(doc)
 	if err != nil {
 		return err
diff --git a/remove.go b/remove.go
index 3698783..d0ad110 100644
--- a/remove.go
+++ b/remove.go
@@ -14,9 +14,16 @@
 
 package dupi
 
-import "os"
+import (
+	"os"
+	"sync/atomic"
+)
 
 func RemoveIndex(idx *Index) error {
+	// one which is closed may by now be in use by others
+	if !atomic.CompareAndSwapInt32(&idx.closed, 0, 1) {
+		return os.ErrClosed
+	}
 	// remove before unlocking: the next holder of the lock
 	// may create an index at the same place.
 	defer idx.lock.Close()
@@ -29,6 +36,9 @@ func RemoveIndex(idx *Index) error {
 }
 
 func RemoveIndexer(idx *Indexer) error {
+	if !atomic.CompareAndSwapInt32(&idx.closed, 0, 1) {
+		return os.ErrClosed
+	}
 	defer idx.lock.Close()
 	errc := idx.flush()
 	errrm := os.RemoveAll(idx.Root())
-- 
2.43.0


From 3ef7868abc6d51b9c15e3ece3a0c24f5ed86709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 29/43] fix: more shards than 32 bit blots allow are refused

---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index b8d0e60..5e7f6f3 100644
--- a/config.go
+++ b/config.go
@@ -84,7 +84,8 @@ func (cfg *Config) check() error {
 	if cfg.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
 		return fmt.Errorf("invalid sequence length: %d", cfg.SeqLen)
 	}
-	if cfg.NumShards < 1 {
+	// there are 1<<16 blots to a shard, and 32 bits to a blot
+	if cfg.NumShards < 1 || cfg.NumShards >= 1<<16 {
 		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
 	}
 	if cfg.NumShatters < 1 {
-- 
2.43.0


From 084db43b0654b4fa1a54072bae7ce4b067746e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 30/43] fix: damaged indexes are reported and crash or hang
 nobody

---
 doc.go                   | 13 +++++++---
 fnames.go                | 31 +++++++++++++++---------
 index.go                 |  3 +++
 internal/shard/poster.go |  7 +++---
 internal/shard/posts.go  | 51 +++++++++++++++++++++++++++++++++-------
 5 files changed, 78 insertions(+), 27 deletions(-)

diff --git a/doc.go b/doc.go
index 075cfac..ad06dfc 100644
--- a/doc.go
+++ b/doc.go
@@ -60,10 +60,17 @@ func (doc *Doc) Load() error {
 		if err != nil {
 			return fmt.Errorf("seek: %w", err)
 		}
-		dat := make([]byte, doc.End-doc.Start)
-		_, err = f.ReadAt(dat, int64(doc.Start))
+		if doc.Start > doc.End {
+			return fmt.Errorf("%s has no %d:%d", doc.Path, doc.Start, doc.End)
+		}
+		// not made at once: the end may be far behind that of the file
+		n := int64(doc.End) - int64(doc.Start)
+		dat, err := ioutil.ReadAll(io.NewSectionReader(f, int64(doc.Start), n))
+		if err == nil && int64(len(dat)) < n {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
-			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, len(dat), doc.Start, err)
+			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, n, doc.Start, err)
 		}
 		doc.Dat = dat
 	}
diff --git a/fnames.go b/fnames.go
index 8205c2c..ca7800c 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,33 +124,42 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, fmt.Errorf("no root in file names")
+	}
+	// what was read may be damaged, so trust no length or
+	// number before what it is about was read as well.
 	s := &fnames{}
-	s.d = make([]fname, v)
-	var buf []byte
-	for i := range s.d {
+	n := v
+	var buf bytes.Buffer
+	for i := uint32(0); i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
+		buf.Reset()
+		_, err = io.CopyN(&buf, r, int64(v))
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
 		}
-		_, err = io.ReadFull(r, buf[:v])
 		if err != nil {
 			return nil, err
 		}
-		fname := &s.d[i]
-		fname.name = string(buf[:v])
+		name := buf.String()
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		fname.parent = v
-		pname := &s.d[fname.parent]
+		// parents come before their children
+		if v >= i && i != 0 || v != 0 && i == 0 {
+			return nil, fmt.Errorf("invalid parent of file name %d: %d", i, v)
+		}
+		s.d = append(s.d, fname{name: name, parent: v})
+		pname := &s.d[v]
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[name] = i
 	}
 	return s, nil
 }
diff --git a/index.go b/index.go
index 98ba40d..426acd9 100644
--- a/index.go
+++ b/index.go
@@ -320,6 +320,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if int64(fid) >= int64(len(x.fnames.d)) || start > end {
+		return fmt.Errorf("docid2Doc(%d): invalid record: file %d, %d:%d", did, fid, start, end)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 8a7abf0..63d34fc 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -119,13 +119,10 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
 		if v <= 8 {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
-		_, err = f.ReadAt(buf[:v], head+n)
+		buf, err = readBlockAt(f, buf, v, head+n)
 		if err != nil {
 			return err
 		}
@@ -140,6 +137,8 @@ func (p *poster) readToLink(f *os.File) error {
 			// which was not committed.
 			p.link = head + n + v - 8
 			return nil
+		} else if link <= head {
+			return fmt.Errorf("%s: invalid link from %d: %d", p, head, link)
 		} else {
 			head = link
 		}
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index 8701357..a827efd 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -71,6 +71,30 @@ func readVarintAt(r io.ReaderAt, p int64) (int64, int64, error) {
 	return v, n, nil
 }
 
+// readBlockAt reads n bytes at p to the start of buf, which it makes
+// longer as needed.  As n may be damaged, what is made longer at once
+// is bounded.
+func readBlockAt(r io.ReaderAt, buf []byte, n, p int64) ([]byte, error) {
+	const most = 1 << 20
+	for got := int64(0); got < n; {
+		m := n - got
+		if m > most {
+			m = most
+		}
+		if got+m > int64(len(buf)) {
+			grown := make([]byte, 2*got+m)
+			copy(grown, buf[:got])
+			buf = grown
+		}
+		_, err := r.ReadAt(buf[got:got+m], p+got)
+		if err != nil {
+			return buf, err
+		}
+		got += m
+	}
+	return buf, nil
+}
+
 func (p *Posts) next(r io.ReaderAt) (uint32, error) {
 	if p.i == len(p.docids) {
 		if p.nextpos == -1 {
@@ -86,7 +110,7 @@ func (p *Posts) next(r io.ReaderAt) (uint32, error) {
 	return res, nil
 }
 
-func (p *Posts) readNext(r io.ReaderAt) error {
+func (p *Posts) readNext(r io.ReaderAt) (err error) {
 	v, n, err := readVarintAt(r, p.nextpos)
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
@@ -94,10 +118,7 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if v <= 8 {
 		return fmt.Errorf("invalid length of post block: %d", v)
 	}
-	if v > int64(len(p.buf)) {
-		p.buf = make([]byte, v)
-	}
-	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
+	p.buf, err = readBlockAt(r, p.buf, v, p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
 	}
@@ -105,8 +126,16 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		t, i int
 		d    uint64
 		buf  = p.buf[:v]
+		cur  = p.current
 	)
+	// nothing of the last block, also if this one is damaged
 	p.docids = p.docids[:0]
+	p.i = 0
+	defer func() {
+		if err != nil {
+			p.docids = p.docids[:0]
+		}
+	}()
 
 	for {
 		d, t = binary.Uvarint(buf[i:])
@@ -117,8 +146,8 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 		if (d & 0xffffffff) != d {
 			return fmt.Errorf("32bit uvarint overflow: %x", d)
 		}
-		p.current += uint32(d)
-		p.docids = append(p.docids, p.current)
+		cur += uint32(d)
+		p.docids = append(p.docids, cur)
 		if i > len(buf)-8 {
 			return fmt.Errorf("misaligned")
 		}
@@ -126,7 +155,11 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
-	p.i = 0
+	link := int64(binary.BigEndian.Uint64(buf[i:]))
+	if link != -1 && link <= p.nextpos {
+		return fmt.Errorf("invalid link from post block %d: %d", p.nextpos, link)
+	}
+	p.nextpos = link
+	p.current = cur
 	return nil
 }
-- 
2.43.0


From 1258304682c37641ff04dcc379d267b1fbea9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 31/43] fix: dupi unblot: report documents that could not be
 read

---
 cmd/dupi/unblot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index 8eb1be9..0719a66 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -47,6 +47,7 @@ func (ub *unblotCmd) Run(args []string) error {
 	}
 	defer idx.Close()
 	query := idx.StartQuery(dupi.QueryMaxBlot)
+	var reterr error
 	for _, arg := range ub.flags.Args() {
 		var hex uint32
 		if _, err := fmt.Sscanf(arg, "%x", &hex); err != nil {
@@ -64,6 +65,7 @@ func (ub *unblotCmd) Run(args []string) error {
 			start, end, err := idx.FindBlot(hex, doc)
 			if err != nil {
 				log.Printf("warning: %s", err)
+				reterr = err
 				continue
 			}
 			dat := string(doc.Dat[start-doc.Start : end-doc.Start])
@@ -80,5 +82,5 @@ func (ub *unblotCmd) Run(args []string) error {
 			}
 		}
 	}
-	return nil
+	return reterr
 }
-- 
2.43.0


From 4103f774418891b9dad377846e79d944b370a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 32/43] fix: dupi unblot: find all texts of a document, not
 only the first

Different texts may have the same blot, also within a document.
---
 cmd/dupi/unblot.go | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index 0719a66..2e9b71a 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -20,6 +20,7 @@ import (
 	"log"
 
 	"github.com/go-air/dupi"
+	"github.com/go-air/dupi/token"
 )
 
 type unblotCmd struct {
@@ -62,15 +63,16 @@ func (ub *unblotCmd) Run(args []string) error {
 		for i := range blot.Docs {
 			doc := &blot.Docs[i]
 
-			start, end, err := idx.FindBlot(hex, doc)
+			txts, err := findTexts(idx, hex, doc)
 			if err != nil {
 				log.Printf("warning: %s", err)
 				reterr = err
 				continue
 			}
-			dat := string(doc.Dat[start-doc.Start : end-doc.Start])
 			doc.Dat = nil
-			m[dat] = append(m[dat], doc)
+			for _, dat := range txts {
+				m[dat] = append(m[dat], doc)
+			}
 		}
 		for k, ds := range m {
 			if !*ub.all && len(ds) < 2 {
@@ -84,3 +86,36 @@ func (ub *unblotCmd) Run(args []string) error {
 	}
 	return reterr
 }
+
+// findTexts finds the texts in doc which have the given blot, each once.
+func findTexts(idx *dupi.Index, theBlot uint32, doc *dupi.Doc) ([]string, error) {
+	// loads doc, and it is an error if there is none
+	if _, _, err := idx.FindBlot(theBlot, doc); err != nil {
+		return nil, err
+	}
+	toks := idx.TokenFunc()(nil, doc.Dat, 0)
+	j := 0
+	for i := range toks {
+		if toks[i].Tag == token.Word {
+			toks[j] = toks[i]
+			j++
+		}
+	}
+	toks = toks[:j]
+	N := uint32(idx.NumShards()) * (1 << 16)
+	seqLen := idx.SeqLen()
+	var res []string
+	seen := make(map[string]bool)
+	for i, b := range idx.BlotDoc(nil, doc) {
+		if b%N != theBlot {
+			continue
+		}
+		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+		txt := string(doc.Dat[toks[i].Pos:end])
+		if !seen[txt] {
+			seen[txt] = true
+			res = append(res, txt)
+		}
+	}
+	return res, nil
+}
-- 
2.43.0


From 605a79802b70ea7f34fe0bbb6f9a83af46d38af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 33/43] fix: dupi like: look for all texts of the file, not
 only the last of each blot

Different texts may have the same blot, also within a file.
---
 cmd/dupi/like.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 009ee89..7227a4e 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -15,6 +15,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"io/ioutil"
@@ -92,11 +93,11 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
-	bm := make(map[uint32][]byte, len(blots))
+	bms := []map[uint32][]byte{make(map[uint32][]byte, len(blots))}
 	for i, b := range blots {
 		beg := toks[i].Pos
 		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
-		bm[b%N] = dat[beg:end]
+		bms = addText(bms, b%N, dat[beg:end])
 	}
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	var db dupi.Blot
@@ -114,14 +115,16 @@ func doFilename(idx *dupi.Index, fname string) error {
 			if found[dk] != 0 {
 				continue
 			}
-			rm, err := idx.FindBlots(bm, doc)
-			if err != nil {
-				return err
+			for _, bm := range bms {
+				rm, err := idx.FindBlots(bm, doc)
+				if err != nil {
+					return err
+				}
+				if len(rm) != 0 {
+					found[dk]++
+					break
+				}
 			}
-			if len(rm) == 0 {
-				continue
-			}
-			found[dk]++
 		}
 	}
 	keys := make([]docKey, 0, len(found))
@@ -137,3 +140,19 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	return nil
 }
+
+// addText adds a text of a blot to the first of bms which has
+// no other text of the same blot.
+func addText(bms []map[uint32][]byte, blot uint32, txt []byte) []map[uint32][]byte {
+	for _, bm := range bms {
+		old, ok := bm[blot]
+		if !ok {
+			bm[blot] = txt
+			return bms
+		}
+		if bytes.Equal(old, txt) {
+			return bms
+		}
+	}
+	return append(bms, map[uint32][]byte{blot: txt})
+}
-- 
2.43.0


From c2d023ae6e2208d3ffee2fa5a7ab2288385d2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 34/43] fix: dmd, blotter: memory for what there is, whatever
 the configuration says

---
 blotter/circ.go        | 12 ++++++++----
 blotter/interleaved.go | 22 ++++++++++------------
 dmd/adder.go           | 17 +++++++----------
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/blotter/circ.go b/blotter/circ.go
index d12fa9d..4e53fe4 100644
--- a/blotter/circ.go
+++ b/blotter/circ.go
@@ -21,18 +21,19 @@ import (
 )
 
 type Circ struct {
-	hashes []uint32
+	n      int
+	hashes []uint32 // of the last n words, as far as there were any
 	hash   uint32
 	fn     hash.Hash32
 	i      int
 }
 
 func NewCirc(n int) *Circ {
-	return &Circ{hashes: make([]uint32, n), hash: 0, fn: fnv.New32()}
+	return &Circ{n: n, hash: 0, fn: fnv.New32()}
 }
 
 func (c *Circ) Config() *Config {
-	return &Config{SeqLen: len(c.hashes), Interleave: 1}
+	return &Config{SeqLen: c.n, Interleave: 1}
 }
 
 func (c *Circ) Interleaving() int {
@@ -44,11 +45,14 @@ func (c *Circ) Blot(word []byte) uint32 {
 	fn.Reset()
 	fn.Write(bytes.ToLower(word))
 	h := fn.Sum32()
+	if c.i == len(c.hashes) {
+		c.hashes = append(c.hashes, 0)
+	}
 	c.hash ^= c.hashes[c.i]
 	c.hashes[c.i] = h
 	c.hash ^= h
 	c.i++
-	if c.i == len(c.hashes) {
+	if c.i == c.n {
 		c.i = 0
 	}
 	return c.hash
diff --git a/blotter/interleaved.go b/blotter/interleaved.go
index dbc9f32..7e740e9 100644
--- a/blotter/interleaved.go
+++ b/blotter/interleaved.go
@@ -1,32 +1,30 @@
 package blotter
 
 type Interleaved struct {
-	circs []*Circ
-	i     int
+	n, seqLen int
+	circs     []*Circ // as many of n as there were words
+	i         int
 }
 
 func NewInterleaved(seqLen, interLeaving int) *Interleaved {
-	res := &Interleaved{circs: make([]*Circ, interLeaving)}
-	for i := range res.circs {
-		res.circs[i] = NewCirc(seqLen)
-	}
-	return res
+	return &Interleaved{n: interLeaving, seqLen: seqLen}
 }
 
 func (i *Interleaved) Config() *Config {
-	example := i.circs[0]
-	seqLen := len(example.hashes)
-	return &Config{SeqLen: seqLen, Interleave: len(i.circs)}
+	return &Config{SeqLen: i.seqLen, Interleave: i.n}
 }
 
 func (i *Interleaved) Interleaving() int {
-	return len(i.circs)
+	return i.n
 }
 
 func (i *Interleaved) Blot(tok []byte) uint32 {
+	if i.i == len(i.circs) {
+		i.circs = append(i.circs, NewCirc(i.seqLen))
+	}
 	res := i.circs[i.i].Blot(tok)
 	i.i++
-	if i.i == len(i.circs) {
+	if i.i == i.n {
 		i.i = 0
 	}
 	return res
diff --git a/dmd/adder.go b/dmd/adder.go
index 99094e2..41feb1b 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -24,17 +24,17 @@ import (
 type Adder struct {
 	path      string
 	flushed   uint32
-	flushRate uint32
+	flushRate int
 	buf       []fields
 }
 
 func NewAdder(root string, fr int) (*Adder, error) {
-	ufr := uint32(fr)
 	path := filepath.Join(root, "dmd")
-	adder := &Adder{path: path, flushRate: ufr}
+	adder := &Adder{path: path, flushRate: fr}
 	fi, err := os.Stat(path)
 	if os.IsNotExist(err) {
-		adder.buf = make([]fields, 1, fr)
+		// the rest as needed: fr may be any
+		adder.buf = make([]fields, 1)
 		adder.flushed = 0
 		return adder, nil
 	}
@@ -43,22 +43,19 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	}
 	adder.flushed = uint32(fi.Size() / rcdSize)
 	if adder.flushed == 0 {
-		adder.buf = make([]fields, 1, fr)
-	} else {
-		adder.buf = make([]fields, 0, fr)
+		adder.buf = make([]fields, 1)
 	}
 	return adder, nil
 }
 
 func (t *Adder) Add(fid, start, end uint32) (uint32, error) {
-	n := uint32(len(t.buf))
-	if n == t.flushRate {
+	if len(t.buf) == t.flushRate {
 		err := t.flush()
 		if err != nil {
 			return 0, err
 		}
 	}
-	n = uint32(len(t.buf))
+	n := uint32(len(t.buf))
 	t.buf = append(t.buf, fields{fid, start, end})
 	return n + t.flushed, nil
 }
-- 
2.43.0


From be3962f3c8adca0b6e7a7ec3a940c3ffcae0436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 35/43] fix: shards which are not there and shatterers without
 end are refused

---
 config.go  | 14 +++++++++++++-
 index.go   |  3 +++
 indexer.go |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 5e7f6f3..13c03ee 100644
--- a/config.go
+++ b/config.go
@@ -88,7 +88,8 @@ func (cfg *Config) check() error {
 	if cfg.NumShards < 1 || cfg.NumShards >= 1<<16 {
 		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
 	}
-	if cfg.NumShatters < 1 {
+	// each is there from the start
+	if cfg.NumShatters < 1 || cfg.NumShatters >= 1<<16 {
 		return fmt.Errorf("invalid number of shatterers: %d", cfg.NumShatters)
 	}
 	if cfg.DocFlushRate < 1 {
@@ -122,6 +123,17 @@ func (cfg *Config) PostPath(i int) string {
 	return filepath.Join(cfg.IndexRoot, fmt.Sprintf("b%d.pos", i))
 }
 
+// checkShards is whether there are as many shards as cfg has.
+// Memory is needed for all of them, so this comes first.
+func (cfg *Config) checkShards() error {
+	for i := 0; i < cfg.NumShards; i++ {
+		if _, err := os.Stat(cfg.PostPath(i)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func ReadConfigFromRoot(root string) (*Config, error) {
 	cfg, err := DefaultConfig(root)
 	if err != nil {
diff --git a/index.go b/index.go
index 426acd9..6a58c8e 100644
--- a/index.go
+++ b/index.go
@@ -79,6 +79,9 @@ func OpenIndex(root string) (_ *Index, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := cfg.checkShards(); err != nil {
+		return nil, err
+	}
 	res.shards = make([]shard.Index, cfg.NumShards)
 	for i := range res.shards {
 		shard := &res.shards[i]
diff --git a/indexer.go b/indexer.go
index 2987e0b..9befdcf 100644
--- a/indexer.go
+++ b/indexer.go
@@ -157,6 +157,9 @@ func openFromConfig(cfg *Config) (_ *Indexer, err error) {
 	}
 	res.config = cfg
 	// internal setup
+	if err := cfg.checkShards(); err != nil {
+		return nil, err
+	}
 	res.shards = make([]shard.Indexer, cfg.NumShards)
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
 	if err != nil {
-- 
2.43.0


From a62fae00f844f90d30acf0ea28f6323e62bc992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 36/43] fix: dmd: refuse more documents than there are document
 ids

---
 dmd/adder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dmd/adder.go b/dmd/adder.go
index 41feb1b..ca36e3b 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -16,11 +16,16 @@ package dmd
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 )
 
+// ErrFull is returned when there are no more document ids.
+var ErrFull = errors.New("too many documents")
+
 type Adder struct {
 	path      string
 	flushed   uint32
@@ -41,6 +46,9 @@ func NewAdder(root string, fr int) (*Adder, error) {
 	if err != nil {
 		return nil, err
 	}
+	if fi.Size()/rcdSize > math.MaxUint32 {
+		return nil, ErrFull
+	}
 	adder.flushed = uint32(fi.Size() / rcdSize)
 	if adder.flushed == 0 {
 		adder.buf = make([]fields, 1)
@@ -49,6 +57,9 @@ func NewAdder(root string, fr int) (*Adder, error) {
 }
 
 func (t *Adder) Add(fid, start, end uint32) (uint32, error) {
+	if uint64(t.flushed)+uint64(len(t.buf)) >= math.MaxUint32 {
+		return 0, ErrFull
+	}
 	if len(t.buf) == t.flushRate {
 		err := t.flush()
 		if err != nil {
-- 
2.43.0


From f2194627661d864e57ef7b9313e5a5874f59292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:48 +0000
Subject: [PATCH 37/43] fix: files too big for the offsets of a document are
 refused

---
 cmd/dupi/blot.go  |  3 +++
 cmd/dupi/dupi.go  | 13 +++++++++++++
 cmd/dupi/index.go |  3 +++
 cmd/dupi/like.go  |  3 +++
 doc.go            |  8 ++++++++
 5 files changed, 30 insertions(+)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index fcc5317..461c541 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -65,6 +65,9 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 		return e
 	}
 	defer f.Close()
+	if err := checkSize(f); err != nil {
+		return err
+	}
 	dat, err := ioutil.ReadAll(f)
 	if err != nil {
 		return err
diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 734b06d..786978e 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 
@@ -85,6 +86,18 @@ func splitArgs(args []string) ([]string, []string) {
 	return args[:i], args[i:]
 }
 
+// checkSize is an error if f is too big for the offsets of a document.
+func checkSize(f *os.File) error {
+	fi, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if fi.Size() > math.MaxUint32 {
+		return fmt.Errorf("%s is too big: %d bytes", f.Name(), fi.Size())
+	}
+	return nil
+}
+
 func usage(w io.Writer) {
 	fmt.Fprintf(w, "usage: dupi [global opts] <verb> <args>\n")
 	fmt.Fprintf(w, "verbs are:\n")
diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 8d2da45..7e6d780 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -124,6 +124,9 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 			return e
 		}
 		defer f.Close()
+		if err := checkSize(f); err != nil {
+			return err
+		}
 		dat, err := ioutil.ReadAll(f)
 		if err != nil {
 			*perr = err
diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 7227a4e..80e502d 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -75,6 +75,9 @@ func doFilename(idx *dupi.Index, fname string) error {
 		return e
 	}
 	defer f.Close()
+	if err := checkSize(f); err != nil {
+		return err
+	}
 	dat, err := ioutil.ReadAll(f)
 	if err != nil {
 		return err
diff --git a/doc.go b/doc.go
index ad06dfc..872fa1b 100644
--- a/doc.go
+++ b/doc.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 )
 
@@ -49,6 +50,13 @@ func (doc *Doc) Load() error {
 	defer f.Close()
 
 	if doc.Start == 0 && doc.End == 0 {
+		fi, err := f.Stat()
+		if err != nil {
+			return fmt.Errorf("stat: %w", err)
+		}
+		if fi.Size() > math.MaxUint32 {
+			return fmt.Errorf("%s is too big: %d bytes", doc.Path, fi.Size())
+		}
 		dat, err := ioutil.ReadAll(f)
 		if err != nil {
 			return fmt.Errorf("readall: %w", err)
-- 
2.43.0


From ea4c9f7e7f7295e3e7f0a78e33b5d9126fd26852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 38/43] fix: dupenron -o: print what was asked for, and fail if
 that fails

---
 cmd/dupenron/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 353b337..828aa6c 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -50,7 +50,9 @@ func csvReader(fname string) (*csv.Reader, func() error, error) {
 func main() {
 	flag.Parse()
 	if *O {
-		oEnron(flag.Args()[0])
+		if err := oEnron(flag.Args()[0]); err != nil {
+			log.Fatal(err)
+		}
 		return
 	}
 	if err := agent.Listen(agent.Options{
@@ -83,7 +85,7 @@ func oEnron(fname string) error {
 		rcd, err := rdr.Read()
 		if err != nil {
 			if err == io.EOF {
-				return nil
+				break
 			}
 			return fmt.Errorf("error reading csv: %s", err)
 		}
@@ -92,7 +94,8 @@ func oEnron(fname string) error {
 			return err
 		}
 	}
-	return nil
+	writer.Flush()
+	return writer.Error()
 }
 
 func indexEnron(index *dupi.Indexer, fname string) error {
-- 
2.43.0


From 068095220494844c5711cf3cb6f813acdb6064f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 39/43] fix: dupenron: record where messages are, and fail if
 adding one does

---
 cmd/dupenron/main.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 828aa6c..6248d70 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	_ "net/http/pprof"
@@ -106,7 +107,7 @@ func indexEnron(index *dupi.Indexer, fname string) error {
 	defer closer()
 	rdr.ReuseRecord = true
 	rcds := 0
-	offset := uint32(0)
+	offset := int64(0)
 	for {
 		rcd, err := rdr.Read()
 		if err != nil {
@@ -123,10 +124,16 @@ func indexEnron(index *dupi.Indexer, fname string) error {
 		doc := &dupi.Doc{
 			Path:  fname, //"/" + rcd[0],
 			Dat:   msg,
-			Start: offset + uint32(ibody) + 2 + uint32(len(rcd[0]))}
-		doc.End = offset + uint32(len(doc.Dat))
-		offset = doc.End
-		index.Add(doc)
+			Start: uint32(offset)}
+		// all of the record: what is quoted is not in the file as in Dat
+		offset = rdr.InputOffset()
+		if offset > math.MaxUint32 {
+			return fmt.Errorf("'%s' is too big", fname)
+		}
+		doc.End = uint32(offset)
+		if err := index.Add(doc); err != nil {
+			return fmt.Errorf("error indexing: %w", err)
+		}
 		rcds++
 		if rcds%10000 == 0 {
 			fmt.Printf("%d rcds\n", rcds)
-- 
2.43.0


From 931dbb2fcf5a670013ea407cea22cfa4856d1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 40/43] fix: config: IixPath names the file there is

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 13c03ee..85e8833 100644
--- a/config.go
+++ b/config.go
@@ -116,7 +116,7 @@ func (cfg *Config) FnamesPath() string {
 }
 
 func (cfg *Config) IixPath(i int) string {
-	return filepath.Join(cfg.IndexRoot, fmt.Sprintf("b%d.iix", i))
+	return filepath.Join(cfg.IndexRoot, fmt.Sprintf("b%d.pos.iix", i))
 }
 
 func (cfg *Config) PostPath(i int) string {
-- 
2.43.0


From 8c68ad48686659fcbb767648f154acc104baf868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:49 +0000
Subject: [PATCH 41/43] fix: query: what is in a result's buffer stays, and one
 without room skips nothing

---
 query.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/query.go b/query.go
index 7491945..372fd49 100644
--- a/query.go
+++ b/query.go
@@ -108,19 +108,27 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
+		was := dstBlot.Len()
+		if lim && was == dstBlot.Cap() {
+			// there is a place for the documents in the next call.
+			if n == 0 {
+				err = errors.New("no room for a document")
+			}
+			return
+		}
 		pos := state.i
-		_, err = q.fillBlot(dstBlot, shardState, pos)
+		k, err := q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
-			return
+			return n, err
 		}
-		if len(dstBlot.Docs) == 0 || shardState.Total <= 1 {
+		if k == 0 || shardState.Total <= 1 {
 			// fillBlot advances when it reaches the end of a blot,
 			// and then state.i may be another shard.
 			if state.shardStates[pos] == shardState {
 				q.advance(shardState, pos)
 			}
 			if lim {
-				dstBlot.Docs = dstBlot.Docs[:0]
+				dstBlot.Docs = dstBlot.Docs[:was]
 			} else {
 				dstBlot.Docs = nil
 			}
-- 
2.43.0


From 725b1d79aea8a5d192c2ed49afb63b8f60517bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:21 +0000
Subject: [PATCH 42/43] fix: shard: an error reading a total is not passed over

The error was overwritten by that of reading what follows, so that a
read which failed just once went unnoticed and the rest of the table was
misread.
---
 internal/shard/poster.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 63d34fc..3c75089 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -66,6 +66,9 @@ func (p *poster) initAppend(r io.ByteReader, blot uint16) error {
 	}
 	var ttl int64
 	ttl, err = binary.ReadVarint(r)
+	if err != nil {
+		return err
+	}
 	if uint64(ttl)&0xffffffff != uint64(ttl) {
 		return fmt.Errorf("invalid total: %d", ttl)
 	}
-- 
2.43.0


From e2bc9518e0b63df4d8606599df9c90bbdb3283ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:04 +0000
Subject: [PATCH 43/43] fix: dupi: an index may be named as a verb is

Of 'dupi -r like index ...', 'like' was taken to be the verb.
---
 cmd/dupi/dupi.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 786978e..4480e61 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -72,20 +72,6 @@ func getIndexRoot() string {
 	return filepath.Join(home, ".dupi")
 }
 
-// returns global argument list
-func splitArgs(args []string) ([]string, []string) {
-	var i int
-	var arg string
-	var sc Verb
-	for i, arg = range args {
-		sc = scMap[arg]
-		if sc != nil {
-			break
-		}
-	}
-	return args[:i], args[i:]
-}
-
 // checkSize is an error if f is too big for the offsets of a document.
 func checkSize(f *os.File) error {
 	fi, err := f.Stat()
@@ -124,7 +110,10 @@ func main() {
 	}); err != nil {
 		log.Fatal(err)
 	}
-	gargs, largs := splitArgs(os.Args[1:])
+	gFlags.Usage = func() { usageFatal(os.Stderr) }
+	// up to the verb, which an option's value may be named like
+	gFlags.Parse(os.Args[1:])
+	largs := gFlags.Args()
 	if len(largs) == 0 {
 		usageFatal(os.Stderr)
 	}
@@ -132,8 +121,6 @@ func main() {
 	if sc == nil {
 		usageFatal(os.Stderr)
 	}
-	gFlags.Usage = func() { usageFatal(os.Stderr) }
-	gFlags.Parse(gargs)
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0

