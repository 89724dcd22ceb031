From 39142b743bd4853381e0887db93c994145a6f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 01/21] fix: bufmap.Get must copy the whole record of its slot

The slice bounds were x*s : x*(s+1), so slot x returned only x bytes (none at
all for slot 0) or bytes of following records.
---
 internal/bufmap/bufmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 080c5fd..4dffa9c 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -73,7 +73,7 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 		}
 
 		// Get a copy of the data
-		copy(buf, m.values[x*m.s:x*(m.s+1)])
+		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
 		// Check that the data was not updated during the copy
 		seq2 := atomic.LoadUint32(&s.seq)
-- 
2.43.0


From 8caf61ec55c6ea0d757da0a934901398cefe0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 02/21] fix: bufmap must report init exactly until the first
 successful update

Update signalled init whenever probing had passed the slot of another key, so
a record displaced by a collision was wiped by each of its updates. A writer
racing the creator of a record could also run first without init, and a
record whose first update failed was reported as present and never
initialised afterwards. Track initialisation per slot under its lock.
---
 internal/bufmap/bufmap.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 4dffa9c..2f3de34 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -38,6 +38,7 @@ func New(l, s int) *Map {
 type slot struct {
 	key uint64 // key occupying this slot
 	seq uint32 // monotonically increasing write counter
+	set uint32 // 1 once an update of the slot has succeeded, guarded by seq and mu
 	mu  sync.Mutex
 }
 
@@ -72,6 +73,9 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 			continue
 		}
 
+		// Has the slot been claimed but not yet successfully updated?
+		found := atomic.LoadUint32(&s.set) != 0
+
 		// Get a copy of the data
 		copy(buf, m.values[x*m.s:(x+1)*m.s])
 
@@ -80,11 +84,9 @@ func (m *Map) Get(k uint64, buf []byte) bool {
 
 		if seq1 == seq2 {
 			// No update was made
-			break
+			return found
 		}
 	}
-
-	return true
 }
 
 // Update finds the buffer stored against key k and atomically updates it with
@@ -100,7 +102,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	}
 	x := -1
 	i := 0
-	init := false
 	for {
 		x = m.pos(k, i)
 
@@ -109,8 +110,6 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 		if kexist == k {
 			break
 		}
-		// Signal that the is a new value
-		init = true
 
 		// Is it an empty slot?
 		if kexist == 0 {
@@ -143,7 +142,13 @@ func (m *Map) Update(k uint64, fn func(data []byte, init bool) error) error {
 	// Notify readers that we are writing
 	atomic.AddUint32(&s.seq, 1)
 
+	// The value is new until an update of it has succeeded
+	init := atomic.LoadUint32(&s.set) == 0
+
 	err := fn(m.values[x*m.s:(x+1)*m.s], init)
+	if err == nil && init {
+		atomic.StoreUint32(&s.set, 1)
+	}
 
 	// Notify readers that we are done
 	atomic.AddUint32(&s.seq, 1)
-- 
2.43.0


From d50ff0aeb2eba138c4cca8da9ec447b6116abdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/21] fix: bufmap.Get must not find the invalid key 0

Key 0 marks an empty slot, so Get(0) claimed to have found the first empty
slot it probed.
---
 internal/bufmap/bufmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bufmap/bufmap.go b/internal/bufmap/bufmap.go
index 2f3de34..c0a7db2 100644
--- a/internal/bufmap/bufmap.go
+++ b/internal/bufmap/bufmap.go
@@ -48,6 +48,11 @@ const maxReprobe = 10
 // Get atomically reads a buffer value stored against key k into buffer buf.
 // The return value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64, buf []byte) bool {
+	// 0 indicates an empty slot so can never be found
+	if k == 0 {
+		return false
+	}
+
 	// Locate the correct slot
 	x := -1
 	i := 0
-- 
2.43.0


From c44c530305d1243022457334e6c7ed3701e7d577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 04/21] fix: incmap.Get must not find the invalid key 0

Key 0 marks an empty slot, so Get(0) claimed to have found the first empty
slot it probed.
---
 internal/incmap/incmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/incmap/incmap.go b/internal/incmap/incmap.go
index 1244064..41236b3 100644
--- a/internal/incmap/incmap.go
+++ b/internal/incmap/incmap.go
@@ -74,6 +74,10 @@ func (m *Map) Inc(k uint64, d uint64) bool {
 // Get retrieves the value stored against key k. The second return
 // value will be false if the key could not be found in the map.
 func (m *Map) Get(k uint64) (uint64, bool) {
+	// 0 indicates an empty slot so can never be found
+	if k == 0 {
+		return 0, false
+	}
 
 	x := -1
 	i := 0
-- 
2.43.0


From c7917d756cfabb54011c4d7a606238533a83c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 05/21] fix: a row that cannot be parsed must not change the
 record

Update applied the row measures and all fields before the malformed one and
then returned an error, leaving the record half updated.
---
 internal/collation/schema.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index a7f6caf..db672c6 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -160,6 +160,19 @@ type Collator struct {
 // their state. If an error is returned then the buffer may be in an
 // inconsistent state and should not be used further.
 func (c Collator) Update(r Row, buf []byte, init bool) error {
+	// Parse all the continuous values before updating any measure so that a
+	// malformed row leaves the record unchanged
+	values := make([]float64, len(r.Data))
+	for i, fv := range r.Data {
+		if _, exists := c.contWriters[string(fv.F)]; exists {
+			v, err := strconv.ParseFloat(string(fv.V), 64)
+			if err != nil {
+				return err
+			}
+			values[i] = v
+		}
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
@@ -167,15 +180,11 @@ func (c Collator) Update(r Row, buf []byte, init bool) error {
 		}
 	}
 
-	for _, fv := range r.Data {
+	for i, fv := range r.Data {
 		// Update measures that operate on the field as a continuous value
 		if ws, exists := c.contWriters[string(fv.F)]; exists {
-			v, err := strconv.ParseFloat(string(fv.V), 64)
-			if err != nil {
-				return err
-			}
 			for _, w := range ws {
-				if err := w.UpdateFloat64(buf, init, v); err != nil {
+				if err := w.UpdateFloat64(buf, init, values[i]); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From d5efdbb3543f20acad19a6d2a67018aa72da5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 06/21] fix: a count configured for a field must be collated

Count has no ContWriter so Compile silently dropped it from field measures,
although it is listed as sharing the stat64 summary of the field.
---
 internal/collation/compile.go |  3 +++
 internal/collation/measure.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d07f67f..d7b0b32 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -68,6 +68,9 @@ func (s *Schema) Compile() (Collator, error) {
 			if cm, ok := m.(ContinuousInput); ok {
 				switch m.(type) {
 				case Count, Sum, Mean, Variance:
+					// A count only needs 8 bytes as a row measure but uses the whole summary here
+					size = Sum{}.Size()
+					hi = low + size
 					if stat64 {
 						// We already have a stat64 measure, so reuse it for writing
 						low, hi = stat64Low, stat64Hi
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 030ac8e..3fcd531 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -46,6 +46,7 @@ type DiscReaderFunc func(buf []byte) ([]byte, error)
 type Count struct{}
 
 var _ RowMeasure = Count{}
+var _ ContinuousInput = Count{}
 
 func (Count) Size() int { return 8 }
 
@@ -60,6 +61,16 @@ func (Count) RowWriter() RowWriterFunc {
 	}
 }
 
+// ContWriter counts the observations of a field using the summary shared with
+// the other statistical measures of that field.
+func (Count) ContWriter() ContWriterFunc {
+	return func(buf []byte, init bool, v float64) error {
+		s := stat64.WithBytes(buf)
+		s.Update(v)
+		return nil
+	}
+}
+
 func (Count) ContReader() ContReaderFunc {
 	return func(buf []byte) (float64, error) {
 		c := binary.LittleEndian.Uint64(buf)
-- 
2.43.0


From 2ed48a82c2428a99607affbd03adb04f2a73b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 07/21] fix: initialise all measures of a record on its first
 update

Only the measures of fields present in the first row were initialised, and the
counts and statistical summaries not even then. A maximum or minimum was
compared with zero and a cardinality rejected every later row when the field
was missing from the first one, and a reused buffer leaked into the counts.
---
 internal/collation/compile.go | 12 ++++++++++++
 internal/collation/measure.go | 25 +++++++++++++++++++++++++
 internal/collation/schema.go  |  9 ++++++++-
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/internal/collation/compile.go b/internal/collation/compile.go
index d7b0b32..9ac1131 100644
--- a/internal/collation/compile.go
+++ b/internal/collation/compile.go
@@ -51,6 +51,7 @@ func (s *Schema) Compile() (Collator, error) {
 			coll.discReaders[RowPseudoField] = crs
 		}
 
+		coll.blank = append(coll.blank, blankState(m, size)...)
 		pos += size
 		coll.size += size
 
@@ -118,6 +119,7 @@ func (s *Schema) Compile() (Collator, error) {
 					coll.discReaders[ms.Field.Pattern] = crs
 				}
 
+				coll.blank = append(coll.blank, blankState(m, size)...)
 				pos += size
 				coll.size += size
 			}
@@ -157,6 +159,7 @@ func (s *Schema) Compile() (Collator, error) {
 					coll.discReaders[ms.Field.Pattern] = crs
 				}
 
+				coll.blank = append(coll.blank, blankState(m, size)...)
 				pos += size
 				coll.size += size
 			}
@@ -166,3 +169,12 @@ func (s *Schema) Compile() (Collator, error) {
 
 	return coll, nil
 }
+
+// blankState returns size bytes holding the state of the measure m before any observation.
+func blankState(m Measure, size int) []byte {
+	buf := make([]byte, size)
+	if im, ok := m.(Initialiser); ok {
+		im.Init(buf)
+	}
+	return buf
+}
diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index 3fcd531..e0a0abd 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -33,6 +33,12 @@ type DiscreteOutput interface {
 	DiscReader() DiscReaderFunc
 }
 
+// Initialiser is implemented by measures whose state before any observation is
+// not simply all zero bytes.
+type Initialiser interface {
+	Init(buf []byte)
+}
+
 type RowWriterFunc func(buf []byte, init bool) error
 type ContWriterFunc func(buf []byte, init bool, v float64) error
 type DiscWriterFunc func(buf []byte, init bool, v []byte) error
@@ -158,6 +164,11 @@ func (Max) Size() int { return 8 }
 
 func (Max) Name() string { return "max" }
 
+// Init marks the maximum as not a number since nothing has been observed.
+func (Max) Init(buf []byte) {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+}
+
 func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -187,6 +198,11 @@ func (Min) Size() int { return 8 }
 
 func (Min) Name() string { return "min" }
 
+// Init marks the minimum as not a number since nothing has been observed.
+func (Min) Init(buf []byte) {
+	binary.LittleEndian.PutUint64(buf, math.Float64bits(math.NaN()))
+}
+
 func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
@@ -242,6 +258,15 @@ type Cardinality struct {
 var _ DiscreteInput = Cardinality{}
 var _ ContinuousOutput = Cardinality{}
 
+// Init writes an empty counter.
+func (c Cardinality) Init(buf []byte) {
+	s := hll.New(uint8(c.Precision))
+
+	var b bytes.Buffer
+	s.WriteTo(&b)
+	copy(buf, b.Bytes())
+}
+
 func (c Cardinality) DiscWriter() DiscWriterFunc {
 	return func(buf []byte, init bool, v []byte) error {
 
diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index db672c6..2da9722 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -150,7 +150,8 @@ type Collator struct {
 	discWriters map[string][]discWriter
 	contReaders map[string]map[string]contReader
 	discReaders map[string]map[string]discReader
-	size        int // Size of buffer required to write all measures, i.e. record size
+	size        int    // Size of buffer required to write all measures, i.e. record size
+	blank       []byte // State of a record before its first observation
 }
 
 // Update reads the row and updates buf according to the schema's measures.
@@ -173,6 +174,12 @@ func (c Collator) Update(r Row, buf []byte, init bool) error {
 		}
 	}
 
+	if init {
+		// Initialise every measure, including those of fields that are not in this row
+		copy(buf, c.blank)
+		init = false
+	}
+
 	// Update measures that operate on the row
 	for _, w := range c.writers {
 		if err := w.Update(buf, init); err != nil {
-- 
2.43.0


From e4229aa9a7a9af07f70f04876f55890fb4ab495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 08/21] fix: a NaN observation must not replace a maximum or
 minimum

NaN compares false with everything so it was stored, and was in turn replaced
by the next observation whatever its value.
---
 internal/collation/measure.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/collation/measure.go b/internal/collation/measure.go
index e0a0abd..b459d9a 100644
--- a/internal/collation/measure.go
+++ b/internal/collation/measure.go
@@ -173,7 +173,7 @@ func (Max) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c >= v {
+			if c >= v || math.IsNaN(v) {
 				return nil
 			}
 		}
@@ -207,7 +207,7 @@ func (Min) ContWriter() ContWriterFunc {
 	return func(buf []byte, init bool, v float64) error {
 		if !init {
 			c := math.Float64frombits(binary.LittleEndian.Uint64(buf))
-			if c <= v {
+			if c <= v || math.IsNaN(v) {
 				return nil
 			}
 		}
-- 
2.43.0


From b244aca72d22e7d5e0e95e8d6400d486aa609505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 09/21] fix: a query value may contain the word where

The greedy select list ran up to the last where in the query, so a criterion
such as city='somewhere where' was swallowed.
---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index c98b613..8c0cd1d 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,7 +8,7 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
 	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
 )
-- 
2.43.0


From 94c81829aa0659582f034973847229f1481984d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 10/21] fix: accept query values that are empty or end with an
 equals sign

An empty value dropped its criterion, and a value such as 'a=' made the key
pattern run on through the quotes into the following criterion.
---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 8c0cd1d..6ea85fe 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -10,7 +10,7 @@ import (
 var (
 	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
-	whereRe  = regexp.MustCompile(`(\S+)='([^']+)'`)
+	whereRe  = regexp.MustCompile(`([^\s=']+)='([^']*)'`)
 )
 
 // RoughParse is a quick and dirty query parser that uses regular expressions.
-- 
2.43.0


From b5e075ecfe89a44b3072a817e064cddd4b9b25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 11/21] fix: return query results in the order they were asked
 for

The fields of a query were collected by ranging over a map, so the order of
the measures in a response was random.
---
 internal/query/rough.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 6ea85fe..1d783e6 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -22,18 +22,20 @@ func RoughParse(in string) (collation.Query, error) {
 		return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 	}
 
-	fields := map[string][][]byte{}
+	fields := map[string]int{} // position of each field in q.FieldMeasures
 
 	selections := selectRe.FindAllStringSubmatch(parts[1], -1)
 	for _, s := range selections {
 		if len(s) != 3 {
 			return q, fmt.Errorf("query: syntax error; expected query to have format 'select xxx where yyy'")
 		}
-		fields[string(s[2])] = append(fields[string(s[2])], []byte(s[1]))
-	}
-
-	for f, vs := range fields {
-		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(f), M: vs})
+		i, found := fields[s[2]]
+		if !found {
+			i = len(q.FieldMeasures)
+			fields[s[2]] = i
+			q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: []byte(s[2])})
+		}
+		q.FieldMeasures[i].M = append(q.FieldMeasures[i].M, []byte(s[1]))
 	}
 
 	wheres := whereRe.FindAllStringSubmatch(parts[2], -1)
-- 
2.43.0


From b863f6913b56961ee1e3da8997691e832e213a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 12/21] fix: bitbucket.WithBytes must refuse impossible widths
 and counts

A count large enough to overflow, or negative as an int, passed the length
check and gave a bit bucket whose buckets lie outside its buffer, and a zero
width gave buckets without storage.
---
 internal/bitbucket/bitbucket.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 80969ad..45cea20 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -54,17 +54,19 @@ func WithBytes(buf []byte) (BitBucket, error) {
 	}
 
 	w := buf[1]
-	if w > 8 {
+	if w < 1 || w > 8 {
 		return BitBucket{}, ErrUnsupportedWidth
 	}
 
-	n := int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-
-	buflen := length(n, w)
-	if len(buf) < hdrLen+buflen {
+	// Compare without multiplying since the count may be large enough to overflow
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > uint64(len(buf)-hdrLen)*8/uint64(w) {
 		return BitBucket{}, io.ErrShortBuffer
 	}
 
+	n := int(count)
+	buflen := length(n, w)
+
 	return BitBucket{
 		n:    n,
 		w:    w,
-- 
2.43.0


From 05142fb49f7273c8272fba70bf93ceebd6751500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 13/21] fix: bitbucket.ReadFrom must not trust the width and
 count it reads

Any width was accepted and the buffer for any count was allocated up front, so
a corrupt header made it panic or exhaust memory.
---
 internal/bitbucket/bitbucket.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 45cea20..37d591c 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -5,9 +5,11 @@
 package bitbucket
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
+	"math"
 )
 
 const (
@@ -198,12 +200,21 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), ErrIncompatibleVersion
 	}
 
-	b.w = buf[1]
-	b.n = int(binary.LittleEndian.Uint64(buf[2:hdrLen]))
-	b.data = make([]byte, length(b.n, b.w))
+	w := buf[1]
+	if w < 1 || w > 8 {
+		return int64(n), ErrUnsupportedWidth
+	}
 
-	n0, err := io.ReadFull(r, b.data)
-	n += n0
+	count := binary.LittleEndian.Uint64(buf[2:hdrLen])
+	if count > math.MaxInt64/16 {
+		// No stream can hold this many buckets
+		return int64(n), io.ErrUnexpectedEOF
+	}
+
+	// Allocate as data arrives since the count is not to be trusted
+	var data bytes.Buffer
+	n0, err := io.CopyN(&data, r, int64(length(int(count), w)))
+	n += int(n0)
 	if err != nil {
 		if err == io.EOF {
 			return int64(n), io.ErrUnexpectedEOF
@@ -211,6 +222,10 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 		return int64(n), err
 	}
 
+	b.w = w
+	b.n = int(count)
+	b.data = data.Bytes()
+
 	n1, err := r.Read(buf[:])
 	n += n1
 	if err != io.EOF {
-- 
2.43.0


From bee7e58d500ca4ee0292bedface04716910e8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 14/21] fix: bloom must refuse to decode data that is not a
 bloom filter

A buffer shorter than the header, a filter without bits or one with buckets
wider than a bit was accepted or made decoding or the first use panic.
---
 internal/summary/bloom/bloom.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 762843a..9880124 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -19,6 +19,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("bloom: incompatible version")
+var ErrInvalidBits = errors.New("bloom: serialized buckets are not a non-empty set of bits")
 
 // Bloom is a bloom filter which can be used to probabilisticly test whether an item is a
 // member of a set. False positives are possible but false negatives are not.
@@ -40,6 +41,10 @@ func New(n int, p float64) Bloom {
 // the bloom filter will mutate buf. The layout of the byte buffer must match
 // the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Bloom, error) {
+	if len(buf) < hdrLen {
+		return Bloom{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Bloom{}, ErrIncompatibleVersion
@@ -50,6 +55,9 @@ func WithBytes(buf []byte) (Bloom, error) {
 	if err != nil {
 		return Bloom{}, err
 	}
+	if bits.Width() != 1 || bits.Count() == 0 {
+		return Bloom{}, ErrInvalidBits
+	}
 
 	return Bloom{
 		m:    bits.Count(),
@@ -177,6 +185,9 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if b.bits.Width() != 1 || b.bits.Count() == 0 {
+		return int64(n), ErrInvalidBits
+	}
 	b.m = b.bits.Count()
 
 	n1, err := r.Read(buf[:])
-- 
2.43.0


From 52607d7505ffb188edbbf2b1a73b505bafb1c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 15/21] fix: hll must refuse to decode data that is not a
 counter

A buffer shorter than the header, a precision outside the supported range or
registers that do not match it made decoding or the first use panic.
---
 internal/summary/hll/hll.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index d2b299d..6e5d828 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -20,6 +20,7 @@ const (
 )
 
 var ErrIncompatibleVersion = errors.New("hll: incompatible version")
+var ErrInvalidPrecision = errors.New("hll: serialized registers do not match a precision in range [4,18]")
 
 // New creates a new hyperloglog counter with the specified precision. p must be in the range [4,18]
 func New(p uint8) Counter {
@@ -41,6 +42,10 @@ func New(p uint8) Counter {
 // writes to the counter will mutate buf. The layout of the byte buffer
 // must match the layout used by the WriteTo method.
 func WithBytes(buf []byte) (Counter, error) {
+	if len(buf) < hdrLen {
+		return Counter{}, io.ErrShortBuffer
+	}
+
 	version := buf[0]
 	if version != Version {
 		return Counter{}, ErrIncompatibleVersion
@@ -56,10 +61,18 @@ func WithBytes(buf []byte) (Counter, error) {
 		p:    p,
 		bits: bits,
 	}
+	if !c.valid() {
+		return Counter{}, ErrInvalidPrecision
+	}
 	c.initParams()
 	return c, nil
 }
 
+// valid reports whether the registers of the counter match its precision.
+func (c *Counter) valid() bool {
+	return c.p >= 4 && c.p <= 18 && c.bits.Width() == 6 && c.bits.Count() == 1<<c.p
+}
+
 func (c *Counter) initParams() {
 	m := int(1 << uint(c.p))
 
@@ -287,7 +300,6 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	c.p = buf[1]
-	c.initParams()
 
 	n0, err := c.bits.ReadFrom(r)
 	n += int(n0)
@@ -297,6 +309,10 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 		}
 		return int64(n), err
 	}
+	if !c.valid() {
+		return int64(n), ErrInvalidPrecision
+	}
+	c.initParams()
 
 	n1, err := r.Read(buf[:])
 	n += n1
-- 
2.43.0


From 2eced40778ca65421d63db00558fdc5b451ff89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 16/21] fix: detect the end of a serialized summary with any
 conforming reader

A reader may return its last bytes together with io.EOF, which hid trailing
data, or return no bytes and no error, which was mistaken for trailing data.
---
 internal/bitbucket/bitbucket.go | 2 +-
 internal/summary/bloom/bloom.go | 2 +-
 internal/summary/hll/hll.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bitbucket/bitbucket.go b/internal/bitbucket/bitbucket.go
index 37d591c..03cd0c4 100644
--- a/internal/bitbucket/bitbucket.go
+++ b/internal/bitbucket/bitbucket.go
@@ -226,7 +226,7 @@ func (b *BitBucket) ReadFrom(r io.Reader) (int64, error) {
 	b.n = int(count)
 	b.data = data.Bytes()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index 9880124..d6c6b24 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -190,7 +190,7 @@ func (b *Bloom) ReadFrom(r io.Reader) (int64, error) {
 	}
 	b.m = b.bits.Count()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
diff --git a/internal/summary/hll/hll.go b/internal/summary/hll/hll.go
index 6e5d828..a70b61e 100644
--- a/internal/summary/hll/hll.go
+++ b/internal/summary/hll/hll.go
@@ -314,7 +314,7 @@ func (c *Counter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	c.initParams()
 
-	n1, err := r.Read(buf[:])
+	n1, err := io.ReadFull(r, buf[:1])
 	n += n1
 	if err != io.EOF {
 		// Unexpected trailing data
-- 
2.43.0


From 5169f85556fd187617bf4b4b1745c1c8fd19a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 17/21] fix: stats.Meanvar must divide by n-1 for the sample
 variance

---
 internal/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stats/stats.go b/internal/stats/stats.go
index 4515bb2..32d9f68 100644
--- a/internal/stats/stats.go
+++ b/internal/stats/stats.go
@@ -20,7 +20,7 @@ func Meanvar(vals []float64) (mean, variance float64) {
 	for i := range vals {
 		variance += (vals[i] - mean) * (vals[i] - mean)
 	}
-	variance /= count
+	variance /= count - 1
 	return
 }
 
-- 
2.43.0


From 89dfb6bf2a9c202e4fe37526150097a3893094ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 18/21] fix: a query may be spread over several lines

Blank space between the parts of a query includes newlines, but the
select list and the criteria were matched by a dot that stops at one.
---
 internal/query/rough.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/query/rough.go b/internal/query/rough.go
index 1d783e6..c7dd50d 100644
--- a/internal/query/rough.go
+++ b/internal/query/rough.go
@@ -8,7 +8,7 @@ import (
 )
 
 var (
-	queryRe  = regexp.MustCompile(`(?i)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
+	queryRe  = regexp.MustCompile(`(?is)^\s*select\s+(.+?)\s+where\s+(.+)\s*$`)
 	selectRe = regexp.MustCompile(`([^,\s]+)\(([^,\s]+)\)`)
 	whereRe  = regexp.MustCompile(`([^\s=']+)='([^']*)'`)
 )
-- 
2.43.0


From 8788956292b8de07b86f1ce77b91b96d3e968f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 19/21] fix: return measures of a field in the order they were
 asked for

---
 internal/collation/schema.go | 46 +++++++++++++++---------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/internal/collation/schema.go b/internal/collation/schema.go
index 2da9722..eec51af 100644
--- a/internal/collation/schema.go
+++ b/internal/collation/schema.go
@@ -216,35 +216,27 @@ func (c Collator) Read(fml []FM, buf []byte) (Result, error) {
 	for _, fm := range fml {
 		field := string(fm.F)
 
-		if rs, exists := c.contReaders[field]; exists {
-			for _, measure := range fm.M {
-				if r, exists := rs[string(measure)]; exists {
-					v, err := r.ReadFloat64(buf)
-					if err != nil {
-						return res, err
-					}
-					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
-						F: fm.F,
-						M: measure,
-						V: v,
-					})
+		for _, measure := range fm.M {
+			if r, exists := c.contReaders[field][string(measure)]; exists {
+				v, err := r.ReadFloat64(buf)
+				if err != nil {
+					return res, err
 				}
-			}
-		}
-
-		if rs, exists := c.discReaders[field]; exists {
-			for _, measure := range fm.M {
-				if r, exists := rs[string(measure)]; exists {
-					v, err := r.ReadItem(buf)
-					if err != nil {
-						return res, err
-					}
-					res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
-						F: fm.F,
-						M: measure,
-						V: v,
-					})
+				res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
+					F: fm.F,
+					M: measure,
+					V: v,
+				})
+			} else if r, exists := c.discReaders[field][string(measure)]; exists {
+				v, err := r.ReadItem(buf)
+				if err != nil {
+					return res, err
 				}
+				res.FieldMeasureValues = append(res.FieldMeasureValues, FMV{
+					F: fm.F,
+					M: measure,
+					V: v,
+				})
 			}
 		}
 	}
-- 
2.43.0


From 09e4d7968bfbdc6e1371ee7b990450eb4fac2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:20 +0000
Subject: [PATCH 20/21] fix: a full bloom filter must not estimate a negative
 number of items

---
 internal/summary/bloom/bloom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/summary/bloom/bloom.go b/internal/summary/bloom/bloom.go
index d6c6b24..3c892d8 100644
--- a/internal/summary/bloom/bloom.go
+++ b/internal/summary/bloom/bloom.go
@@ -120,8 +120,13 @@ func Len(n int, p float64) int {
 }
 
 // Count returns an estimate of the number of items that have been added to the bloom filter.
+// Once every bit is set there is no upper bound on the number of items that may have been
+// added and Count returns the largest possible value.
 func (b *Bloom) Count() int64 {
 	x := b.bits.CountN(1)
+	if x >= b.m {
+		return math.MaxInt64
+	}
 	return int64(math.Ceil(-math.Log(1-float64(x)/float64(b.m)) * float64(b.m) / float64(b.k)))
 }
 
-- 
2.43.0


From ce6540fdc5b7d1ee79fa2f220d4a77ac82f2b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:26 +0000
Subject: [PATCH 21/21] fix: a signal that comes before the server waits for it
 must not be lost

---
 internal/server/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index a4c386f..d7505ac 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -83,7 +83,8 @@ func (s *Server) Serve() error {
 
 // waitSignal blocks waiting for operating system signals
 func (s *Server) waitSignal() {
-	ch := make(chan os.Signal)
+	// Signals are not waited for so there must be room for one that comes early
+	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
 
 signalloop:
-- 
2.43.0

