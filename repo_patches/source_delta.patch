From 6b44c58bdb7e9449dd4e04872bad7f169ce6f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:51 +0000
Subject: [PATCH 01/21] fix: keep the leaf flag when comparing labels

Follow compared only the low byte of a unit, so a leaf whose value had the
right low byte was taken for a transition: keys that were never inserted
were reported as present.
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From 6ff57c5efea627214cf73c0af78f95517dd8ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 02/21] fix: make a builder usable again after Finish

clear() left a one-element hash table behind, so the next insertion did not
initialize the builder and panicked.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..26df3f5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = []baseType{}
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From db62cde051e0eb649f73ee54dda41dd639467381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:12 +0000
Subject: [PATCH 03/21] fix: refuse keys with NUL bytes and negative values

Neither can be represented: label 0 marks the end of a key and values have
31 bits. Such keys were accepted and came out as other keys or values, or
made a later insertion panic.
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 26df3f5..38943fa 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Values have 31 bits, and the label 0 is reserved for the end of a key.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From 30f18232365ca44b6a3a142edcd02c26b813efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:12 +0000
Subject: [PATCH 04/21] fix: no transitions from the root of an empty
 dictionary

The root's offset was not marked as used, so fixBlock chose it for the labels
of the unused units and every byte could be followed from the root.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..073fa96 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The offset of the root leads to unused units only.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 1b8a6b02c823c688b8549ca905eb9e54a9a90a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 05/21] fix: end the completion of a dictionary with an empty
 key

The root index doubled as the mark of the first call, so with the empty key
stored Next returned that key forever.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..a832146 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	started    bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -48,6 +49,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	}
 	c.path[length] = 0
 
+	c.started = false
 	c.indexStack = c.indexStack[:0]
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.started {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -125,5 +127,6 @@ func (c *Completer) FindTerminal(index baseType) bool {
 	}
 
 	c.lastIndex = index
+	c.started = true
 	return true
 }
-- 
2.43.0


From d90756d1b9024603fccb0df985123b0bd4b4b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:13 +0000
Subject: [PATCH 06/21] fix: leave the terminator out of the completed key

Key() returned the internal NUL-terminated path, so the key ended with a NUL
byte and was one byte longer than Length().
---
 completer.go        | 3 ++-
 ranked_completer.go | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/completer.go b/completer.go
index a832146..d8164ef 100644
--- a/completer.go
+++ b/completer.go
@@ -21,6 +21,7 @@ func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
 	return &Completer{
 		dict:  dict,
 		guide: guide,
+		path:  make([]ucharType, 1),
 	}
 }
 
@@ -29,7 +30,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return string(c.path[:len(c.path)-1])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..ba6ef87 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -35,7 +35,7 @@ func (rc *RankedCompleter) Value() valueType {
 }
 
 func (rc *RankedCompleter) Length() sizeType {
-	return len(rc.path) - 1
+	return len(rc.path)
 }
 
 func (rc *RankedCompleter) Start(index baseType) {
@@ -99,7 +99,6 @@ func (rc *RankedCompleter) Next() bool {
 		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
 	}
 	reverseUCharSlice(rc.path[rc.prefixLength:])
-	rc.path = append(rc.path, 0)
 
 	rc.value = candidate.value
 	heap.Pop(&rc.candidateQueue)
-- 
2.43.0


From df677024294caea6327ed009ebe445185f79441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:45 +0000
Subject: [PATCH 07/21] fix: keep an index intact when reading it fails

Index.Read installed the new units before they were read, so a truncated
stream left an index of zeros behind. Dictionaries and guides are kept.
---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From 2bf668f749dcddc756429cff26b7116f7cde16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:45 +0000
Subject: [PATCH 08/21] fix: decode a double zero byte in 21-bit mode

The encoder writes marker0 alone for a code point with 15 zero bits (U+2600,
U+A600, ...) in the current window, but the decoder read one more byte: it
swallowed the next character or panicked at the end.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..0b92749 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From 496bf381103bdad371135bab341e1724c0d6cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 09/21] fix: give every UTF-C encoding its own state and buffer

UtfcEncode returned a slice of a shared buffer, which the next call
overwrote (dawgtool -s -u compared two such slices), and two goroutines could
not encode at the same time.
---
 utfc.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/utfc.go b/utfc.go
index 0b92749..5306e74 100644
--- a/utfc.go
+++ b/utfc.go
@@ -123,12 +123,6 @@ func getAuxOffset(offs int) int {
 	return offs
 }
 
-// Note: thread-unsafe
-var sharedState UtfcState
-var sharedBuffer = &byteBuffer{
-	buf: make([]byte, 0, 1024),
-}
-
 func NewUtfcState() *UtfcState {
 	return &UtfcState{
 		offs:    0,
@@ -289,9 +283,10 @@ func (st *UtfcState) Follow(ch rune, f UtfcFollower) bool {
 // Returns true if process was completed successfully, false otherwise
 // Allows to abort encoding early and prevent unneeded memory allocations
 func UtfcFollow(str string, f UtfcFollower) bool {
-	sharedState.Clear()
+	var state UtfcState
+	state.Clear()
 	for _, ch := range str {
-		if !sharedState.Follow(ch, f) {
+		if !state.Follow(ch, f) {
 			return false
 		}
 	}
@@ -300,9 +295,11 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 
 // UtfcEncode converts string to an UTF-C byte array
 func UtfcEncode(str string) []byte {
-	sharedBuffer.buf = sharedBuffer.buf[:0]
-	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	var buffer = &byteBuffer{
+		buf: make([]byte, 0, len(str)),
+	}
+	UtfcFollow(str, buffer)
+	return buffer.buf
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From b55d118b83b00e8bbfa9e71d29e8a0b785377083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:21 +0000
Subject: [PATCH 10/21] fix: index an empty dictionary

The guide of an empty dictionary has no units, and building or using an
index over it panicked.
---
 index_builder.go | 5 +++++
 indexer.go       | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..01119d3 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,11 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+
+	// The guide of an empty dictionary has no units.
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From 3cc069b8bc486b8d9a00c9428a722a4cdc8a4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:22 +0000
Subject: [PATCH 11/21] fix: number keys over a ranked guide

A ranked guide orders the children by value and lists the terminal among
them, but the index builder took the terminal's label for the end of the
list and the indexer expected ascending labels: keys were left out of the
count, not found, or given the number of another key.
---
 index_builder.go |  5 +++--
 indexer.go       | 26 +++++++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index 01119d3..a4c89ac 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -37,7 +37,8 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
+	var terminal bool = ib.dict.HasValue(index)
+	var child ucharType = skipTerminal(ib.dict, ib.guide, index, ib.guide.Child(index), &terminal)
 	for child != 0 {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
@@ -49,7 +50,7 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
+		child = skipTerminal(ib.dict, ib.guide, index, ib.guide.Sibling(childIndex), &terminal)
 	}
 
 	return true
diff --git a/indexer.go b/indexer.go
index 46fd628..a1d8dd4 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,16 @@ func NewIndexer(dict *Dictionary, guide SomeGuide, index *Index) *Indexer {
 const NotFound baseType = 0xffffffff
 const Failed baseType = 0xfffffffe
 
+// Skips the terminal of a node, which a ranked guide lists among the children
+// with label 0. Otherwise label 0 marks the end of the children.
+func skipTerminal(dict *Dictionary, guide SomeGuide, index baseType, label ucharType, terminal *bool) ucharType {
+	if label == 0 && *terminal {
+		*terminal = false
+		return guide.Sibling(index ^ dictOffset(dict.units[index]))
+	}
+	return label
+}
+
 func (idx *Indexer) TotalCount() baseType {
 	return idx.index.TotalCount()
 }
@@ -37,18 +47,19 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
-		if idx.dict.HasValue(index) {
+		var terminal bool = idx.dict.HasValue(index)
+		if terminal {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &terminal)
+		for childLabel != bytes[i] && childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
+			childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &terminal)
 		}
 
 		if childLabel == 0 {
@@ -78,14 +89,15 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
 	for cur <= i {
-		if idx.dict.HasValue(index) {
+		var terminal bool = idx.dict.HasValue(index)
+		if terminal {
 			if cur == i {
 				return buf
 			}
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
+		var childLabel ucharType = skipTerminal(idx.dict, idx.guide, index, idx.guide.Child(index), &terminal)
 		for childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
@@ -98,7 +110,7 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
+				childLabel = skipTerminal(idx.dict, idx.guide, index, idx.guide.Sibling(childIndex), &terminal)
 			}
 		}
 
-- 
2.43.0


From 7c5f29697385c0a8355cf506d07c1ed8a9755488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:54 +0000
Subject: [PATCH 12/21] fix: sort the lexicon by key without the tab and value

With -t the whole lines were compared: where the tab sorts after the next
byte of a longer key (control characters, or most UTF-C text, where the tab
takes two bytes) the keys came out of order and the build failed.
---
 cmd/dawgtool/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..93f4fa5 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -80,11 +80,17 @@ func handleBuildDict() {
 			buffer = append(buffer, scanner.Text())
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
+			key1, key2 := buffer[i], buffer[j]
+			if optTab {
+				// The value is not a part of the key.
+				key1 = strings.Split(key1, "\t")[0]
+				key2 = strings.Split(key2, "\t")[0]
+			}
 			if !optUtfc {
-				return buffer[i] < buffer[j]
+				return key1 < key2
 			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
+			bytes1 := dawg.UtfcEncode(key1)
+			bytes2 := dawg.UtfcEncode(key2)
 			length := len(bytes1)
 			if len(bytes2) < length {
 				length = len(bytes2)
-- 
2.43.0


From faa7fccc93a4da11c7083acadbfa12daec7d5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:54 +0000
Subject: [PATCH 13/21] fix: report lexicon lines that cannot be read

The scanner stops at a read error or at a line over 64 KiB; the rest of the
lexicon was dropped and the build still succeeded.
---
 cmd/dawgtool/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 93f4fa5..81ea84f 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -70,6 +70,13 @@ func processLine(line string) bool {
 	return true
 }
 
+// Stops if not all lines were read.
+func checkScanner() {
+	if err := scanner.Err(); err != nil {
+		log.Fatalf("error: failed to read lines: %v\n", err)
+	}
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -79,6 +86,7 @@ func handleBuildDict() {
 		for scanner.Scan() {
 			buffer = append(buffer, scanner.Text())
 		}
+		checkScanner()
 		sort.SliceStable(buffer, func(i int, j int) bool {
 			key1, key2 := buffer[i], buffer[j]
 			if optTab {
@@ -126,6 +134,7 @@ func handleBuildDict() {
 				}
 			}
 		}
+		checkScanner()
 	}
 
 	d := dawg.NewDawg()
@@ -271,6 +280,7 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	checkScanner()
 
 	if optIndex {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
-- 
2.43.0


From cc6e0c816adc146d00156c57bbe0983e0c241372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 14/21] fix: use UTF-C in dawgtool queries too

-u encoded the keys of the dictionary but not the queries, and printed
completions and numbered keys in their encoded form.
---
 cmd/dawgtool/main.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 81ea84f..3119017 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -210,6 +210,20 @@ func handleBuildDict() {
 	}
 }
 
+// Converts between text and the keys of the dictionary.
+func encodeKey(key string) string {
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+func decodeKey(key string) string {
+	if optUtfc {
+		return dawg.UtfcDecode([]byte(key))
+	}
+	return key
+}
+
 func handleLoadDict() {
 	dict := dawg.ReadDictionary(fileDictionary)
 	if dict == nil {
@@ -248,6 +262,7 @@ func handleLoadDict() {
 
 		fmt.Printf("%s:", key)
 		var index uint32 = dict.Root()
+		key = encodeKey(key)
 
 		if optRanked || optGuide {
 			if optIndex {
@@ -263,7 +278,7 @@ func handleLoadDict() {
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Printf(" %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -274,7 +289,7 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Printf(" %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
@@ -286,7 +301,7 @@ func handleLoadDict() {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Printf("%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
 	}
 }
-- 
2.43.0


From 1bf2284f57c91be993fb6758e3942e897eba9494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:08 +0000
Subject: [PATCH 15/21] fix: query without a guide when -i is given

An index exists only together with a guide, but -i alone made the query
mode use an indexer that was never created.
---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 3119017..3b60f1f 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -297,7 +297,7 @@ func handleLoadDict() {
 	}
 	checkScanner()
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0


From 115e9f2aabb05330d8fc3406e136b102a23b5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 16/21] fix: clear all statistics of an automaton

---
 dawg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dawg.go b/dawg.go
index 9c0d866..75067a3 100644
--- a/dawg.go
+++ b/dawg.go
@@ -87,5 +87,7 @@ func (dawg *Dawg) Clear() {
 	dawg.labelPool = dawg.labelPool[:0]
 	dawg.flagPool.clear()
 	dawg.numOfStates = 0
+	dawg.numOfMergedTransitions = 0
 	dawg.numOfMergedStates = 0
+	dawg.numOfMergingStates = 0
 }
-- 
2.43.0


From 002ea045f0830e1df1261e600cf2f77947412633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 17/21] fix: replace the guide when the automaton is empty

---
 guide_builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/guide_builder.go b/guide_builder.go
index f60be21..76bb4f0 100644
--- a/guide_builder.go
+++ b/guide_builder.go
@@ -31,6 +31,7 @@ func (gb *GuideBuilder) Build() bool {
 	gb.isFixedTable = make([]ucharType, gb.dict.size/8)
 
 	if gb.dawg.Size() <= 1 {
+		gb.guide.Clear()
 		return true
 	}
 
-- 
2.43.0


From 99dc33b4b5b33135bf48e6e1add38b16d937e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 18/21] fix: make a dictionary builder usable again

---
 dictionary_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index 073fa96..d5263d9 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -63,6 +63,12 @@ func (db *DictionaryBuilder) extra(index baseType) *DictionaryExtraUnit {
 
 // Builds a dictionary from a list-form dawg.
 func (db *DictionaryBuilder) BuildDictionary() bool {
+	// Leaves nothing of an earlier build.
+	db.units = nil
+	db.extras = nil
+	db.unfixedIndex = 0
+	db.numOfUnusedUnits = 0
+
 	db.linkTable = NewLinkTable(db.dawg.numOfMergingStates + (db.dawg.numOfMergingStates >> 1))
 	db.reserveUnit(0)
 	db.extra(0).setIsUsed()
-- 
2.43.0


From c614e6e56b4c9998520744c02b4c7c873f9acd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:51 +0000
Subject: [PATCH 19/21] fix: report results that could not be written

---
 cmd/dawgtool/main.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 3b60f1f..5647209 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -27,6 +27,7 @@ var optDictionary string
 var fileLexicon *os.File
 var fileDictionary *os.File
 var scanner *bufio.Scanner
+var output *bufio.Writer = bufio.NewWriter(os.Stdout)
 
 var builder *dawg.DawgBuilder
 
@@ -224,6 +225,13 @@ func decodeKey(key string) string {
 	return key
 }
 
+// Stops if not all results were written.
+func flushOutput() {
+	if err := output.Flush(); err != nil {
+		log.Fatalf("error: failed to write results: %v\n", err)
+	}
+}
+
 func handleLoadDict() {
 	dict := dawg.ReadDictionary(fileDictionary)
 	if dict == nil {
@@ -260,7 +268,7 @@ func handleLoadDict() {
 	for scanner.Scan() {
 		var key string = scanner.Text()
 
-		fmt.Printf("%s:", key)
+		fmt.Fprintf(output, "%s:", key)
 		var index uint32 = dict.Root()
 		key = encodeKey(key)
 
@@ -268,17 +276,17 @@ func handleLoadDict() {
 			if optIndex {
 				var idx = indexer.StringToIndex(key)
 				if idx == dawg.NotFound {
-					fmt.Printf(" (not found)")
+					fmt.Fprintf(output, " (not found)")
 				} else if idx == dawg.Failed {
-					fmt.Printf(" (failed)")
+					fmt.Fprintf(output, " (failed)")
 				} else {
-					fmt.Printf(" (#%d)", idx)
+					fmt.Fprintf(output, " (#%d)", idx)
 				}
 			}
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s = %d;", decodeKey(key+completer.Key()), completer.Value())
+					fmt.Fprintf(output, " %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -289,20 +297,22 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
+					fmt.Fprintf(output, " %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(output)
+		flushOutput()
 	}
 	checkScanner()
 
 	if optIndex && guide != nil {
-		fmt.Printf("Total words: %d\n", indexer.TotalCount())
+		fmt.Fprintf(output, "Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
+			fmt.Fprintf(output, "%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
+		flushOutput()
 	}
 }
 
-- 
2.43.0


From 68b1a96d413e05ff5e6495fe44fcf567a53a9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:51 +0000
Subject: [PATCH 20/21] fix: refuse to overwrite the lexicon with the
 dictionary

---
 cmd/dawgtool/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 5647209..8e9fe40 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -316,6 +316,13 @@ func handleLoadDict() {
 	}
 }
 
+// Checks if a name leads to a given regular file.
+func isSameFile(file *os.File, name string) bool {
+	info1, err1 := file.Stat()
+	info2, err2 := os.Stat(name)
+	return err1 == nil && err2 == nil && info1.Mode().IsRegular() && os.SameFile(info1, info2)
+}
+
 func main() {
 	flag.BoolVar(&optBuild, "b", false, "build dictionary")
 	flag.BoolVar(&optTab, "t", false, "handle tab as separator")
@@ -346,6 +353,9 @@ func main() {
 	scanner = bufio.NewScanner(fileLexicon)
 
 	if optBuild {
+		if isSameFile(fileLexicon, optDictionary) {
+			log.Fatalf("error: the dictionary would overwrite the lexicon: %s\n", optDictionary)
+		}
 		fileDictionary, err = os.Create(optDictionary)
 	} else {
 		fileDictionary, err = os.Open(optDictionary)
-- 
2.43.0


From e346023f214dca1701b51d623fccf0621ea8f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:17 +0000
Subject: [PATCH 21/21] fix: do not panic on UTF-C encodings that were cut off

---
 utfc.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/utfc.go b/utfc.go
index 5306e74..f6acedc 100644
--- a/utfc.go
+++ b/utfc.go
@@ -309,6 +309,16 @@ func UtfcDecode(buf []byte) string {
 	is21Bit := false
 	str := ""
 	i := 0
+	isCut := false
+	// Reads the next byte, unless the encoding was cut off.
+	next := func() int {
+		if i >= len(buf) {
+			isCut = true
+			return 0
+		}
+		i++
+		return int(buf[i-1])
+	}
 	for i < len(buf) {
 		zm := 0
 		if buf[i] >= marker0 && buf[i] <= marker11 { // Decode zero-marker
@@ -317,8 +327,7 @@ func UtfcDecode(buf []byte) string {
 		}
 		cp := 0
 		if zm != marker0 && zm != marker00 {
-			cp = int(buf[i])
-			i++
+			cp = next()
 		}
 		if (cp & markerAux) == markerAux {
 			if auxOffs == 0 {
@@ -329,8 +338,7 @@ func UtfcDecode(buf []byte) string {
 		} else if (cp&markerExtra) == markerExtra && (cp^markerExtra) != 0 {
 			lo := 0
 			if zm != marker10 {
-				lo = int(buf[i])
-				i++
+				lo = next()
 			}
 			cp = decodeRanges(((cp^markerExtra)-1)<<8|lo, rangesExtra)
 			if cp >= rangeHK[0] && cp < rangeHK[1] {
@@ -341,13 +349,11 @@ func UtfcDecode(buf []byte) string {
 		} else if (cp & marker21Bit) == marker21Bit {
 			hi := 0
 			if zm != marker10 && zm != marker11 {
-				hi = int(buf[i])
-				i++
+				hi = next()
 			}
 			lo := 0
 			if zm != marker01 && zm != marker11 {
-				lo = int(buf[i])
-				i++
+				lo = next()
 			}
 			cp = (cp^marker21Bit)<<16 | hi<<8 | lo
 			auxOffs = offs
@@ -357,8 +363,7 @@ func UtfcDecode(buf []byte) string {
 		} else if (cp & marker13Bit) == marker13Bit {
 			hi := 0
 			if zm != marker10 {
-				hi = int(buf[i])
-				i++
+				hi = next()
 			}
 			cp = (cp^marker13Bit)<<8 | hi
 			auxOffs = getAuxOffset(offs)
@@ -371,13 +376,15 @@ func UtfcDecode(buf []byte) string {
 		} else if is21Bit {
 			hi := 0
 			if zm != marker10 && zm != marker0 {
-				hi = int(buf[i])
-				i++
+				hi = next()
 			}
 			cp = min21BitCp + (offs | cp<<8 | hi)
 		} else {
 			cp = offs | cp
 		}
+		if isCut {
+			break
+		}
 		str += string(rune(cp))
 	}
 	return str
-- 
2.43.0

