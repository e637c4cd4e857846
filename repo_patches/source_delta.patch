From 1f4534454c99be08a41e818be0847b608907b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 01/41] fix: long and int buffers past the first page and after
 shrinking

Entries beyond the first page could not be read or modified (the index was
compared with the length of the page), appending after SetSize or Clear wrote
at the wrong place, dropped entries stayed readable, and page size exponents
that do not give a positive page size panicked or corrupted the buffer.
---
 vtdxml/buffer/int_buffer.go  | 19 ++++++++++++-------
 vtdxml/buffer/long_buffer.go | 27 +++++++++++++++++----------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..ad85816 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -93,6 +93,10 @@ func (b *FastIntBuffer) GetSize() int {
 }
 
 func (b *FastIntBuffer) SetSize(size int) {
+	// entries can only be dropped, growing is done with Append
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -113,7 +117,7 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -130,7 +134,8 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		// the page may hold stale entries after the buffer has been shrunk
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -146,14 +151,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..14d7d3f 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
@@ -65,7 +67,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +81,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -91,6 +93,10 @@ func (b *FastLongBuffer) GetSize() int {
 }
 
 func (b *FastLongBuffer) SetSize(size int) {
+	// entries can only be dropped, growing is done with Append
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
@@ -133,7 +139,7 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
-		for j := range buffer {
+		for j := 0; j < len(buffer) && j < size; j++ {
 			v := buffer[j]
 			intArray = append(intArray, v)
 		}
@@ -150,7 +156,8 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
+		// the page may hold stale entries after the buffer has been shrunk
+		bufferSlice = append(bufferSlice[:b.size&b.r], value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
 	} else {
@@ -166,14 +173,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 13570ae7a866a30369d7134361a12590b6211029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 02/41] fix: Upper32At returns all upper 32 bits

The mask kept only 28 of them.
---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 14d7d3f..1c8f4fc 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -116,7 +116,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From cd8859b42bcaa6b14645b86bc2cb356e067fc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 03/41] fix: object buffer past its first page and after
 shrinking

Objects beyond the first page could not be read or modified, a page could grow
beyond the page size, and appending after SetSize or Clear failed or returned
dropped objects. GetSize keeps counting pages.
---
 vtdxml/buffer/object_buffer.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..dc944c6 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
@@ -62,7 +64,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -77,7 +79,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -89,22 +91,23 @@ func (b *FastObjectBuffer) GetSize() int {
 }
 
 func (b *FastObjectBuffer) SetSize(size int) {
+	// pages can only be dropped, growing is done with Append
+	if size < 0 || size > b.size {
+		return
+	}
 	b.size = size
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
-		bufferSlice, err := b.get(pageNum)
-		if err != nil {
-			return err
-		}
+	// size is the number of pages in use, only the last one may have free space
+	pageNum := b.size - 1
+	if bufferSlice, err := b.get(pageNum); err == nil && len(bufferSlice) < b.pageSize {
 		bufferSlice = append(bufferSlice, value)
 		return b.set(pageNum, bufferSlice)
 	} else {
+		b.buffer = append(b.buffer[:b.size], []interface{}{value})
 		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
+		b.capacity = b.size * b.pageSize
 		return nil
 	}
 }
-- 
2.43.0


From ac0e7bb0f82dbec12ade9ecef6bf8b12950ee4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 04/41] fix: GetByteSlice returns length bytes starting at
 offset

It sliced buffer[offset:length], which panicked or returned too few bytes.
---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From 7db77f78ce5093bbed933dd4e2d5ee6908be4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 05/41] fix: NewNavigationError returns a NavigationError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From a10c7508654ecaf66df2fe2ca9871d39986ce862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 06/41] fix: keep character classes as ranges

Each XmlChar held a slice with every code point of each class: 69 MB and 30 ms
per parser or navigator, and a linear scan over up to a million entries per
character. The classes are unchanged.
---
 vtdxml/common/xml_char.go | 51 ++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 167f8be..c8d6746 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -1,39 +1,33 @@
 package common
 
 type XmlChar struct {
-	validCharSlice     []uint32
-	spaceCharSlice     []uint32
-	nameCharSlice      []uint32
-	nameStartCharSlice []uint32
-	contentCharSlice   []uint32
-	specialCharSlice   []uint32
+	validCharSlice     [][]uint32
+	spaceCharSlice     [][]uint32
+	nameCharSlice      [][]uint32
+	nameStartCharSlice [][]uint32
+	contentCharSlice   [][]uint32
+	specialCharSlice   [][]uint32
 }
 
 func NewXmlChar() *XmlChar {
 	x := &XmlChar{
-		validCharSlice:     make([]uint32, 0),
-		spaceCharSlice:     make([]uint32, 0),
-		nameCharSlice:      make([]uint32, 0),
-		nameStartCharSlice: make([]uint32, 0),
-		contentCharSlice:   make([]uint32, 0),
-		specialCharSlice:   make([]uint32, 0),
+		validCharSlice:     make([][]uint32, 0),
+		spaceCharSlice:     make([][]uint32, 0),
+		nameCharSlice:      make([][]uint32, 0),
+		nameStartCharSlice: make([][]uint32, 0),
+		contentCharSlice:   make([][]uint32, 0),
+		specialCharSlice:   make([][]uint32, 0),
 	}
 
-	// Set all valid characters
+	// Set all valid characters, surrogate blocks, 0xFFFE and 0xFFFF are excluded
 	rangeSlice := [][]uint32{{0x1, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}
 	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			// exclude surrogate blocks, 0xFFFE and 0xFFFF
-			if (j >= 0xD800 && j <= 0xDFFF) || j == 0xFFFE || j == 0xFFFF {
-				continue
-			}
-			x.validCharSlice = append(x.validCharSlice, j)
-		}
+		x.validCharSlice = append(x.validCharSlice, i)
 	}
 
 	// Set space characters
 	for _, ch := range []uint32{0x20, 0x9, 0xD, 0xA} {
-		x.spaceCharSlice = append(x.spaceCharSlice, ch)
+		x.spaceCharSlice = append(x.spaceCharSlice, []uint32{ch, ch})
 	}
 
 	// Set name start characters
@@ -43,9 +37,7 @@ func NewXmlChar() *XmlChar {
 		{0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF},
 	}
 	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			x.nameStartCharSlice = append(x.nameStartCharSlice, j)
-		}
+		x.nameStartCharSlice = append(x.nameStartCharSlice, i)
 	}
 
 	// Set name characters
@@ -56,13 +48,11 @@ func NewXmlChar() *XmlChar {
 	rangeSlice = append(rangeSlice, []uint32{0x0300, 0x036F})
 	rangeSlice = append(rangeSlice, []uint32{0x203F, 0x2040})
 	for _, i := range rangeSlice {
-		for j := i[0]; j <= i[1]; j++ {
-			x.nameCharSlice = append(x.nameCharSlice, j)
-		}
+		x.nameCharSlice = append(x.nameCharSlice, i)
 	}
 
 	for _, i := range []uint32{'<', '&', ']'} {
-		x.specialCharSlice = append(x.specialCharSlice, i)
+		x.specialCharSlice = append(x.specialCharSlice, []uint32{i, i})
 	}
 
 	return x
@@ -88,9 +78,10 @@ func (x *XmlChar) IsContentChar(ch uint32) bool {
 	return !x.exists(x.specialCharSlice, ch) && x.exists(x.validCharSlice, ch)
 }
 
-func (x *XmlChar) exists(arr []uint32, ch uint32) bool {
+// exists function checks that the character is in one of the inclusive ranges
+func (x *XmlChar) exists(arr [][]uint32, ch uint32) bool {
 	for _, i := range arr {
-		if i == ch {
+		if ch >= i[0] && ch <= i[1] {
 			return true
 		}
 	}
-- 
2.43.0


From 517fab6520cd2054e60a81231dd506fbcb513cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:08 +0000
Subject: [PATCH 07/41] fix: readers never look past the end offset and never
 consume on a failed skip

SkipChar panicked at the end of the document and matched characters after
endOffset, SkipCharSeq consumed the part of the sequence that matched, and the
ASCII reader refused an end offset at the end of the document.
---
 vtdxml/reader/ascii_reader.go | 9 ++++++---
 vtdxml/reader/utf8_reader.go  | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..568f4ab 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
@@ -50,17 +50,20 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
+	offset := r.offset
+	if next, err := r.GetChar(); err == nil && next == ch {
 		return true
 	} else {
+		r.offset = offset
 		return false
 	}
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..6671916 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -54,17 +54,20 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
+	offset := r.offset
+	if next, err := r.GetChar(); err == nil && next == ch {
 		return true
 	} else {
+		r.offset = offset
 		return false
 	}
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	offset := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = offset
 			return false
 		}
 	}
-- 
2.43.0


From 3a63ea8739ca5e7293169ac58d5bf4bb6d73721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 08/41] fix: decode UTF-8

The reader returned single bytes: malformed UTF-8 was accepted, names with
non-ASCII characters were rejected and every other character was classified by
its bytes. The parser never set its encoding to UTF-8, and FormatUtf8 came
after the UTF-16 formats although comparisons with FormatUtf16BE are used to
tell the single byte encodings and UTF-8 from UTF-16.
---
 vtdxml/common/common.go           |  7 ++++---
 vtdxml/parser/common.go           |  1 +
 vtdxml/parser/process_attr_val.go |  6 +++++-
 vtdxml/parser/vtd_parser.go       |  1 +
 vtdxml/reader/utf8_reader.go      | 14 +++++++-------
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index 96f5d39..68151bb 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -31,8 +31,10 @@ const (
 type FormatEncoding int
 
 const (
+	// the order is relied on: single byte encodings and UTF-8 precede UTF-16
 	FormatAscii FormatEncoding = iota
 	FormatIso88591
+	FormatUtf8
 	FormatIso88592
 	FormatIso88593
 	FormatIso88594
@@ -48,9 +50,6 @@ const (
 	FormatIso885914
 	FormatIso885915
 	FormatIso885916
-	FormatUtf16BE
-	FormatUtf16LE
-	FormatUtf8
 	FormatWin1250
 	FormatWin1251
 	FormatWin1252
@@ -60,4 +59,6 @@ const (
 	FormatWin1256
 	FormatWin1257
 	FormatWin1258
+	FormatUtf16BE
+	FormatUtf16LE
 )
diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..aedb45b 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -323,6 +323,7 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 	prevOffset := p.offset
 	switch p.encoding {
 	case common.FormatUtf8:
+		prevOffset--
 		for p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
 			prevOffset--
 		}
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..ed48a7a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..3ed040b 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -104,6 +104,7 @@ func WithLcDepth(depth int) Option {
 func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	g := &VtdParser{
 		xmlChar:               common.NewXmlChar(),
+		encoding:              common.FormatUtf8,
 		singleByteEncoding:    true,
 		shallowDepth:          true,
 		depth:                 DefaultDepth,
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 6671916..92ea617 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,7 +1,7 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -33,9 +33,9 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, size := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	r.offset += size
+	if !r.isUTF8(ch, size) {
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
 	return uint32(ch), nil
@@ -82,7 +82,7 @@ func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
 
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
+// isUTF8 function to validate if a decoded character is a valid UTF-8 character
+func (r *Utf8Reader) isUTF8(ch rune, size int) bool {
+	return ch != utf8.RuneError || size > 1
 }
-- 
2.43.0


From fb8d6e895f3addef39d59ebe3f7fa6563f75fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 09/41] fix: recognise byte order marks and stay inside the
 document while doing so

The marks were compared with negative numbers and never matched, deciding the
encoding of a short document read past its end, the reader was not moved
behind a UTF-8 mark, and UTF-16 documents, for which there is no reader, were
read as if they were UTF-8.
---
 vtdxml/parser/common.go | 44 +++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index aedb45b..14a0837 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -344,10 +344,19 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 	return -1, erroring.NewInternalError("unsupported encoding", nil)
 }
 
+// byteAt function returns document byte at the position relative to the current
+// offset, -1 if it is outside the document
+func (p *VtdParser) byteAt(pos int) int32 {
+	if p.offset+pos >= p.endOffset {
+		return -1
+	}
+	return int32(p.xmlDoc[p.offset+pos])
+}
+
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	if p.byteAt(0) == 0xFE {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
+		if p.byteAt(1) == 0xFF {
 			p.offset += 2
 			p.encoding = common.FormatUtf16BE
 			p.bomDetected = true
@@ -355,9 +364,9 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("should be 0xFF 0xFE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
+	} else if p.byteAt(0) == 0xFF {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
+		if p.byteAt(1) == 0xFE {
 			p.offset += 2
 			p.encoding = common.FormatUtf16LE
 			p.bomDetected = true
@@ -365,28 +374,28 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
+	} else if p.byteAt(0) == 0 {
+		if p.byteAt(1) == 0x3c &&
+			p.byteAt(2) == 0 &&
+			p.byteAt(3) == 0x3f {
 			p.encoding = common.FormatUtf16BE
 			p.increment = 2
 			// g.reader = reader.NewUtf16BeReader()
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
-			p.offset += 3
+	} else if p.byteAt(0) == 0xEF {
+		if p.byteAt(1) == 0xBB &&
+			p.byteAt(2) == 0xBF {
+			p.setOffset(p.offset + 3)
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
+	} else if p.byteAt(0) == 0x3c {
+		if p.byteAt(1) == 0 &&
+			p.byteAt(2) == 0x3f &&
+			p.byteAt(3) == 0 {
 			p.encoding = common.FormatUtf16LE
 			p.increment = 2
 			// g.reader = reader.NewUtf16LeReader()
@@ -411,7 +420,8 @@ func (p *VtdParser) decideEncoding() error {
 	}
 
 	if p.encoding >= common.FormatUtf16BE {
-		p.singleByteEncoding = false
+		// there are no UTF-16 readers
+		return erroring.NewEncodingError("UTF-16 is not supported")
 	}
 	return nil
 }
-- 
2.43.0


From 603d307340c1354e6fc2b7ce686f6070fa255fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 10/41] fix: bounds and decoding in GetCharAt and GetLongCharAt

Both panicked outside the document, looked at the byte behind the end offset,
returned single bytes of UTF-8 characters and did not normalise a lone CR.
---
 vtdxml/reader/ascii_reader.go | 18 +++++++++++++++---
 vtdxml/reader/utf8_reader.go  | 32 ++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 568f4ab..cbadc16 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -42,9 +42,15 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
-	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
-		return (2 << 32) | '\n', nil
+	ch, err := r.GetCharAt(offset)
+	if err != nil {
+		return 0, err
+	}
+	if ch == '\r' {
+		if int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+			return (2 << 32) | '\n', nil
+		}
+		ch = '\n'
 	}
 	return (1 << 32) | uint64(ch), nil
 }
@@ -71,6 +77,12 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
+	if !r.isASCII(r.xmlDoc[offset]) {
+		return 0, erroring.NewParseError("invalid ASCII character", "", nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 92ea617..7cad069 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -33,24 +33,40 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch, size := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	ch, size, err := r.decodeAt(r.offset)
 	r.offset += size
+	return uint32(ch), err
+}
+
+// decodeAt function decodes the character starting at the offset
+func (r *Utf8Reader) decodeAt(offset int) (rune, int, error) {
+	if offset < 0 || offset >= r.endOffset {
+		return 0, 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
+	ch, size := utf8.DecodeRune(r.xmlDoc[offset:r.endOffset])
 	if !r.isUTF8(ch, size) {
-		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
+		return 0, size, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
-	return uint32(ch), nil
+	return ch, size, nil
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
-	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
-		return (2 << 32) | '\n', nil
+	ch, size, err := r.decodeAt(int(offset))
+	if err != nil {
+		return 0, err
+	}
+	if ch == '\r' {
+		if int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
+			return (2 << 32) | '\n', nil
+		}
+		ch = '\n'
 	}
-	return (1 << 32) | uint64(ch), nil
+	return uint64(size)<<32 | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
-	return uint32(r.xmlDoc[offset]), nil
+	ch, _, err := r.decodeAt(int(offset))
+	return uint32(ch), err
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-- 
2.43.0


From a8148194a6e687c81f6c350673f5ef19010779ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 11/41] fix: declared encodings

ASCII and US-ASCII declarations were always refused (inverted condition) and
only recognised in some letter cases, while CP125x and WINDOWS-125x ones, with
the last digit missing, were accepted although there are no readers for them.
---
 vtdxml/parser/process_dec_attr_name.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..53239b1 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -149,7 +149,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipCharSeqIgnoreCase(usAscii[1:2]) {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -238,10 +238,10 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 }
 
 func (p *VtdParser) checkAsciiEncoding() error {
-	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
+	if !p.skipCharSeqIgnoreCase(ascii[1:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -257,10 +257,10 @@ func (p *VtdParser) checkAsciiEncoding() error {
 }
 
 func (p *VtdParser) checkUsAsciiEncoding() error {
-	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
+	if !p.skipCharSeqIgnoreCase(usAscii[2:]) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -279,7 +279,7 @@ func (p *VtdParser) checkIsoEncoding() error {
 	if !p.skipCharSeq(iso8859[1:]) && !p.skipCharSeq(strings.ToUpper(iso8859[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ISO8859x", p.fmtLine(), nil)
 	}
 	if length, err := p.setIsoEncoding(); err != nil {
@@ -358,7 +358,7 @@ func (p *VtdParser) checkCpEncoding() error {
 	if !p.skipCharSeq(cp125[1:]) && !p.skipCharSeq(strings.ToUpper(cp125[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding > common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to CP125x", p.fmtLine(), nil)
 	}
 	if err := p.setWinEncoding(); err != nil {
@@ -374,7 +374,7 @@ func (p *VtdParser) checkWindowsEncoding() error {
 	if !p.skipCharSeq(windows[1:]) && !p.skipCharSeq(strings.ToUpper(windows[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding > common.FormatUtf16LE || p.mustUtf8 {
+	if !p.singleByteEncoding || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to WINDOWS-125x", p.fmtLine(), nil)
 	}
 	if err := p.setWinEncoding(); err != nil {
@@ -453,10 +453,10 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	return erroring.NewEncodingError("WINDOWS-125x is not supported")
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
 	// TODO implement: return length end error
-	return 0, nil
+	return 0, erroring.NewEncodingError("ISO-8859-x is not supported")
 }
-- 
2.43.0


From feab0825fc991b505417aaf6bdfcdcfae35c4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 12/41] fix: quotes and whitespace in the XML declaration

Mismatched quotes around the encoding and standalone values and a missing
space before standalone were accepted.
---
 vtdxml/parser/process_dec_attr_name.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 53239b1..7009a04 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -131,6 +131,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	p.lastOffset = p.offset
 	if err := p.nextChar(); err != nil {
 		return err
@@ -168,12 +169,19 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("invalid char to end attribute value", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError("whitespace required after the encoding declaration", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
@@ -201,6 +209,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,8 +237,8 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("invalid char to end attribute value", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
 		return err
-- 
2.43.0


From e625ef686ee7cc930727256a2546e0cc2887da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 13/41] fix: a single ] before > is not the sequence ]]>

Such text was refused, and it ended CDATA sections.
---
 vtdxml/parser/common.go        | 5 +++--
 vtdxml/parser/process.go       | 5 +++--
 vtdxml/parser/process_cdata.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 14a0837..b98f0d5 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -567,10 +567,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 		}
 	case ']':
 		{
-			// skip all ] chars
+			// skip all ] chars, a single one does not start the sequence ]]>
+			doubled := p.skipChar(']')
 			for p.skipChar(']') {
 			}
-			if p.skipChar('>') {
+			if doubled && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..b905564 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -45,10 +45,11 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 		return StateText, nil
 	}
 	if ch == ']' {
-		// skip all ] chars
+		// skip all ] chars, a single one does not start the sequence ]]>
+		doubled := p.skipChar(']')
 		for p.skipChar(']') {
 		}
-		if p.skipChar('>') {
+		if doubled && p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 		}
 		return StateText, nil
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..325ba83 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -14,10 +14,11 @@ func (p *VtdParser) processCdata() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 		}
 		if p.currentChar == ']' {
-			// skip all ] chars
+			// skip all ] chars, a single one does not start the sequence ]]>
+			doubled := p.skipChar(']')
 			for p.skipChar(']') {
 			}
-			if p.skipChar('>') {
+			if doubled && p.skipChar('>') {
 				break
 			}
 		}
-- 
2.43.0


From c59b0a33f775f817d1fa29c6491ed27cde7a87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:25 +0000
Subject: [PATCH 14/41] fix: document type declarations

Every one was refused: the D of DOCTYPE was expected twice, and only inside of
an element. Markup characters in literals, comments and processing
instructions no longer count as delimiters.
---
 vtdxml/parser/common.go           |  2 +-
 vtdxml/parser/process.go          |  4 ----
 vtdxml/parser/process_doc_type.go | 36 +++++++++++++++++++++++++++++--
 vtdxml/parser/process_lt_seen.go  |  6 ++++++
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index b98f0d5..a20b765 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -32,7 +32,7 @@ const (
 
 const (
 	cdata   = "CDATA["
-	docType = "DOCTYPE"
+	docType = "OCTYPE" // what follows <!D
 
 	maxTokenLength  = (1 << 20) - 1
 	maxDepth        = 254
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index b905564..43229fa 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,10 +18,6 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
-		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
-			p.fmtLine(), nil)
-	}
 	return nil
 }
 
diff --git a/vtdxml/parser/process_doc_type.go b/vtdxml/parser/process_doc_type.go
index 596168d..393e875 100644
--- a/vtdxml/parser/process_doc_type.go
+++ b/vtdxml/parser/process_doc_type.go
@@ -7,6 +7,7 @@ import (
 
 func (p *VtdParser) processDocType() (State, error) {
 	z := 1
+	var quote uint32
 	for {
 		ch, err := p.getChar()
 		if err != nil {
@@ -15,10 +16,26 @@ func (p *VtdParser) processDocType() (State, error) {
 		if !p.xmlChar.IsValidChar(ch) {
 			return StateInvalid, erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
 		}
-		if ch == '>' {
+		if quote != 0 {
+			// markup is not recognised in literals
+			if ch == quote {
+				quote = 0
+			}
+		} else if ch == '"' || ch == '\'' {
+			quote = ch
+		} else if ch == '>' {
 			z--
 		} else if ch == '<' {
-			z++
+			if p.skipCharSeq("!--") {
+				err = p.skipInDocType("-->")
+			} else if p.skipChar('?') {
+				err = p.skipInDocType("?>")
+			} else {
+				z++
+			}
+			if err != nil {
+				return StateInvalid, err
+			}
 		}
 
 		if z == 0 {
@@ -38,3 +55,18 @@ func (p *VtdParser) processDocType() (State, error) {
 	}
 	return StateLtSeen, nil
 }
+
+// skipInDocType function skips a comment or a processing instruction up to
+// and including its end
+func (p *VtdParser) skipInDocType(end string) error {
+	for !p.skipCharSeq(end) {
+		ch, err := p.getChar()
+		if err != nil {
+			return err
+		}
+		if !p.xmlChar.IsValidChar(ch) {
+			return erroring.NewParseError("invalid char in DOCTYPE", p.fmtLine(), nil)
+		}
+	}
+	return nil
+}
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..eefc019 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -44,12 +44,18 @@ func (p *VtdParser) processExSeen() (State, error) {
 		if err := p.validateSeq(cdata); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth < 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for CDATA", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
 		if err := p.validateSeq(docType); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth >= 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for DOCTYPE", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateDocType, nil
 	default:
-- 
2.43.0


From 3edbacdacd18e0149596a7f97641ae35c619ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 15/41] fix: comments and processing instructions after the
 root element

Every comment and every processing instruction without a value was refused.
---
 vtdxml/parser/process_end_comment.go | 3 +++
 vtdxml/parser/process_pi_end.go      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 4aca5188b098c35dfa74cb67a4f1eee0e247c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:44 +0000
Subject: [PATCH 16/41] fix: move the reader back along with the offset

After looking for an XML declaration, and for a target named xml, the parser
went on with the characters behind the ones it looked at: <?foo></?foo> was
accepted as an element and most processing instructions were refused.
---
 vtdxml/parser/process_doc_start.go | 6 +++---
 vtdxml/parser/process_lt_seen.go   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..ab36f32 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,15 +25,15 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-			return StateInvalid, nil
+			return StateInvalid, err
 		}
 		if p.currentChar == '<' {
 			return StateLtSeen, nil
 		}
 	}
-	return StateInvalid, nil
+	return StateInvalid, erroring.NewParseError("XML document should start with <", p.fmtLine(), nil)
 }
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index eefc019..c18e452 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -85,6 +85,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From d9df0dce4ebcad7092f223bde634d2bd95a84027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 17/41] fix: length of the reserved prefixes

Prefixes of twice the length that start with xml or xmlns were taken for them.
---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index a20b765..7234066 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -452,7 +452,7 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		valid = length == 4*p.increment
 	}
 	return valid
 }
@@ -493,7 +493,7 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		valid = length == 5*p.increment
 	}
 	return valid
 }
-- 
2.43.0


From be66195aba688ca5745af62516f15ec0d7c26030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 18/41] fix: prefix length of starting tags

It was written over the length of the name.
---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 435c853fa2ea313a427f5b20a2e39afcf46c47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 19/41] fix: offsets of text, CDATA and comments split over
 several tokens

They were relative to the start of the content.
---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7234066..dbc7ce2 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -243,7 +243,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		var j int
+		rOffset := offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From 62d507c12befb2557978ae0dd019e1dae38d8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:12 +0000
Subject: [PATCH 20/41] fix: elements with more than 256 attributes

They panicked.
---
 vtdxml/parser/process_attr_name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..d6c7a69 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,6 +129,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
+	if p.attrCount == len(p.attrNameSlice) {
+		p.attrNameSlice = append(p.attrNameSlice, 0)
+	}
 	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
@@ -136,6 +139,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
+		if p.prefixedAttCount == len(p.prefixedAttrNameSlice) {
+			p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice, 0)
+		}
 		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
 		p.prefixedAttCount++
 	}
-- 
2.43.0


From 4dd57e424f451485b3276f4dfc404ed149325b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 21/41] fix: end tags without a start tag and entities right
 behind an end tag

The former panicked, after the latter the text was taken for a tag.
---
 vtdxml/parser/process_end_tag.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..85079c8 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("end tag without a start tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
@@ -43,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From c8f5d5e19b6a1c9081c7be7ad61449efbdb3f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 22/41] fix: character references beyond 0x10FFFF

They wrapped around and were accepted.
---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index dbc7ce2..081c8f7 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -630,6 +631,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -640,6 +644,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From 5daeeb08631ffd9768184e0b2b1a29ee7d3affd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 23/41] fix: uniqueness of qualified attribute names

The namespaces of prefixed attributes were looked up at the wrong index and
compared beyond their ends, character references for ampersands and
apostrophes consumed input, so colliding names were accepted or panicked.
---
 vtdxml/parser/process_attr_val.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ed48a7a..eec69f2 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -224,7 +224,10 @@ func (p *VtdParser) qualifyAttributes() error {
 		if i < 0 {
 			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
 		} else {
-			p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			if j == len(p.prefixUrlSlice) {
+				p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			}
+			p.prefixUrlSlice[j] = i
 		}
 	}
 	return nil
@@ -365,10 +368,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -382,7 +386,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
@@ -461,8 +465,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -471,15 +475,12 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
-			return false, err
+		// the upper half is the length of the character
+		if int32(chA) != int32(chB) {
+			return false, nil
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
-		return true, nil
-	}
-	return false, nil
+	return a.offset == endA && b.offset == endB, nil
 }
-- 
2.43.0


From 4a81d05c36de99396d383192025f50a41f82361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 24/41] fix: reserved namespace names

They were never recognised, since the comparison included the length of the
character, so declarations that bind other prefixes to them were accepted and
xmlns:xml bound to its namespace was refused.
---
 vtdxml/parser/common.go           |  2 +-
 vtdxml/parser/process_attr_val.go | 46 +++++++++++++++++--------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 081c8f7..bc11335 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -516,7 +516,7 @@ func (p *VtdParser) qualifyElement() error {
 		if diff == preLen {
 			lowVal, err := p.nsBuffer3.Lower32At(i)
 			if err != nil {
-				return nil
+				return err
 			}
 			os := int(lowVal+(upVal>>16)) + p.increment
 			var j int
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index eec69f2..89159f7 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,12 +54,14 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
-			return StateInvalid, erroring.NewParseError(
-				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
-				p.fmtLine(),
-				nil,
-			)
+		if p.isXml {
+			if nsUrlType != NsUrl1998 {
+				return StateInvalid, erroring.NewParseError(
+					fmt.Sprintf("xmlns:xml can only point to %s", XMLNS1998),
+					p.fmtLine(),
+					nil,
+				)
+			}
 		} else {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
@@ -149,43 +151,47 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		return DefaultNsUrl, nil
 	}
 
-	for i := 0; i < 18 && offset < g; i++ {
+	i := 0
+	for ; i < 18 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
+	}
+	if i < 18 {
+		return DefaultNsUrl, nil
 	}
 	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
+	for i = 0; i < 11 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
+		if int32(URL1[i]) != int32(ch) {
+			break
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl1998, nil
+	if i == 11 && offset == g {
+		return NsUrl2000, nil
 	}
 	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
+	for i = 18; i < 36 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl2000, nil
+	if i == 36 && offset == g {
+		return NsUrl1998, nil
 	}
 	return DefaultNsUrl, nil
 }
-- 
2.43.0


From af0dd46ff7781e8b734416da4a14cea59f9cee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 25/41] fix: Parse does not print its state to standard output

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..d5c1737 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From 24375fcd79aeee489a39fdd8592ee9db7afcd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:25 +0000
Subject: [PATCH 26/41] fix: data race between parsers

Parse stored the error it found in the package variable EOFErrorType.
---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d5c1737..ed4e168 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -22,6 +22,7 @@ func (p *VtdParser) Parse() error {
 
 	var ps State
 	var err error
+	var eofErr *erroring.EOFError
 	for {
 		switch parserState {
 		case StateDocType:
@@ -62,7 +63,7 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From 106e41dc6d3d66d1d2bc8df02b722f5b8937b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 27/41] fix: mark elements without children in the location
 cache

The navigation expects -1 in the lower half, 0xFFFF was taken for an index.
---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index bc11335..aea8c27 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -147,19 +147,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -174,15 +174,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -197,11 +197,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -216,7 +216,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index ed4e168..d9d8b1c 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From f643bfbea69f49f99732d639f729057ccdf4e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 28/41] fix: build the location cache of depth 3

With the default depth the cache and the root index were never written.
---
 vtdxml/parser/common.go            | 44 ++++++++++++++++++++++++++++++
 vtdxml/parser/process_start_tag.go |  4 +--
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index aea8c27..24bccea 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -241,6 +241,50 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	return nil
 }
 
+// writeVtdL3 function writes into VTD buffer and the location cache of depth 3
+func (p *VtdParser) writeVtdL3(tokenType common.Token, offset, length, depth int) error {
+	if err := p.writeVtd(tokenType, offset, length, depth); err != nil {
+		return err
+	}
+	index := p.vtdBuffer.GetSize() - 1
+	switch depth {
+	case 0:
+		p.rootIndex = index
+	case 1, 2:
+		if p.lastDepth == 1 {
+			// the entry refers to the first child, if there is one
+			child := 0xFFFFFFFF
+			if depth == 2 {
+				child = p.l2Buffer.GetSize()
+			}
+			if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | child)); err != nil {
+				return err
+			}
+		} else if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
+				return err
+			}
+		}
+		if depth == 1 {
+			p.lastL1Index = index
+		} else {
+			p.lastL2Index = index
+		}
+		p.lastDepth = depth
+	case 3:
+		if p.lastDepth == 2 {
+			if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | p.l3Buffer.GetSize())); err != nil {
+				return err
+			}
+		}
+		if err := p.l3Buffer.Append(int64((index << 32) | 0xFFFFFFFF)); err != nil {
+			return err
+		}
+		p.lastDepth = 3
+	}
+	return nil
+}
+
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 78bf66c..29e4ab1 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,7 +38,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
@@ -51,7 +51,7 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
+			if err := p.writeVtdL3(common.TokenStartingTag, p.lastOffset>>1, (p.length2<<10)|(p.length1>>1),
 				p.depth); err != nil {
 				return StateInvalid, err
 			}
-- 
2.43.0


From 90b755925b2d156ef1eaea3bacc188c9455a0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 29/41] fix: validate the arguments of NewVtdNav and keep room
 for the deepest level

A document with nothing but a root element made every operation panic.
---
 vtdxml/navigation/vtd_nav.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..c87c4c0 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -3,6 +3,7 @@ package navigation
 import (
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 type Nav interface {
@@ -47,7 +48,15 @@ func NewVtdNav(
 	bytes []byte,
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer buffer.LongBuffer,
 ) (*VtdNav, error) {
-	// TODO validate arguments
+	if depth < 0 {
+		return nil, erroring.NewInvalidArgumentError("depth", erroring.IndexOutOfRange, nil)
+	}
+	if vtdBuffer == nil {
+		return nil, erroring.NewInvalidArgumentError("vtdBuffer", erroring.CannotBeNil, nil)
+	}
+	if l1Buffer == nil || l2Buffer == nil || l3Buffer == nil {
+		return nil, erroring.NewInvalidArgumentError("location cache buffer", erroring.CannotBeNil, nil)
+	}
 	n := &VtdNav{
 		rootIndex: rootIndex,
 		offset:    offset,
@@ -59,11 +68,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i < int(depth)+1; i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From 905ec96531e330a14cf23c064a47a905fa8b5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 30/41] fix: GetNav returns the navigator of the parsed
 document

It returned neither a navigator nor an error. A parser that was used once
refuses to parse again, which mixed the tokens of both runs.
---
 vtdxml/parser/get_nav.go    | 15 ++++++++++++---
 vtdxml/parser/parse.go      |  5 +++++
 vtdxml/parser/vtd_parser.go |  2 +-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/vtdxml/parser/get_nav.go b/vtdxml/parser/get_nav.go
index e545f9a..fe52935 100644
--- a/vtdxml/parser/get_nav.go
+++ b/vtdxml/parser/get_nav.go
@@ -1,9 +1,18 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/navigation"
+)
 
 // GetNav function returns VTD navigation object after parsing
 func (p *VtdParser) GetNav() (*navigation.VtdNav, error) {
-	// TODO
-	return nil, nil
+	if !p.parsed {
+		return nil, erroring.NewInternalError("document has not been parsed", nil)
+	}
+	return navigation.NewVtdNav(
+		int32(p.rootIndex), int32(p.docOffset), int32(p.docLength), int32(p.vtdDepth),
+		p.encoding, p.nsAware, p.xmlDoc,
+		p.vtdBuffer, p.l1Buffer, p.l2Buffer, p.l3Buffer,
+	)
 }
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d9d8b1c..b6d467b 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -11,6 +11,10 @@ import (
 // If namespace awareness is set to true, VTDGen conforms to XML
 // namespace 1.0 spec
 func (p *VtdParser) Parse() error {
+	if p.started {
+		return erroring.NewInternalError("document can be parsed only once", nil)
+	}
+	p.started = true
 	if err := p.decideEncoding(); err != nil {
 		return err
 	}
@@ -67,6 +71,7 @@ func (p *VtdParser) Parse() error {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
+			p.parsed = true
 			return nil
 		} else if err != nil {
 			return err
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index 3ed040b..dd347f7 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -48,7 +48,7 @@ type VtdParser struct {
 	nsAware, defaultNs, isNs                                            bool
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
 	isXml                                                               bool
-	bufferReuse                                                         bool
+	bufferReuse, started, parsed                                        bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer, l4Buffer, l5Buffer         buffer.LongBuffer
-- 
2.43.0


From a948c97a12b9e41298f94e92d1759f1941ffc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 31/41] fix: refuse negative and overflowing document lengths

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index dd347f7..59aceb3 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -130,7 +130,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From 37c401eb4de806f1e4f68e35842000c56a46ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 32/41] fix: report columns relative to the start of the
 document

---
 vtdxml/parser/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 24bccea..0369bfc 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -331,7 +331,7 @@ func (p *VtdParser) fmtLine() string {
 // character offset
 func (p *VtdParser) fmtCustomLine(offset int) string {
 	so := p.docOffset
-	lineNumber, lineOffset := 0, 0
+	lineNumber, lineOffset := 0, so
 
 	if p.encoding < common.FormatUtf16BE {
 		for so <= offset-1 {
-- 
2.43.0


From 50e925826dac9840e76ffaee695270b3f1b9e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 33/41] fix: moves between elements below the second level

Moving to a child of the second level, and to siblings on the second and third
levels, looked up the index in the cache of another level, and a next sibling
below the third level was never found.
---
 vtdxml/navigation/to_element.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..e1bded5 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, nil
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From 0b84cd2fa617e5b404565705cb18216f70a76f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 34/41] fix: length of text, CDATA and comments split over
 several tokens

Only the first token was counted, and the tokens behind an empty one were.
---
 vtdxml/navigation/common.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..f7a027b 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -96,22 +96,38 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			tokenDepthNew = depth
 			tokenTypeNew = tokenType
 
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
+			offset, caseErr = n.GetTokenOffset(index)
+			if caseErr != nil {
+				return 0, caseErr
+			}
+			tokenOffsetNew = offset
+
+			// sum up the tokens that continue each other
+			for i := index; depth == tokenDepthNew &&
 				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
+				offset == tokenOffsetNew; {
 
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
+				tokenLength := (uint64(val) & common.MaskTokenFullLength) >> 32
+				length += tokenLength
+				offset += int32(tokenLength)
 
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
-				if forErr != nil {
+				i++
+				if i >= n.vtdBuffer.GetSize() {
+					break
+				}
+				if tokenTypeNew, forErr = n.GetTokenType(i); forErr != nil {
+					return 0, forErr
+				}
+				if tokenDepthNew, forErr = n.GetTokenDepth(i); forErr != nil {
+					return 0, forErr
+				}
+				if tokenOffsetNew, forErr = n.GetTokenOffset(i); forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From a86a4d44217e249c7fd558a097ac7529edc5f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 35/41] fix: token offsets of 1 GB and more

Without namespace awareness documents of up to 2 GB are accepted, but the
offsets were cut to 30 bits.
---
 vtdxml/common/common.go     | 1 +
 vtdxml/navigation/common.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/vtdxml/common/common.go b/vtdxml/common/common.go
index 68151bb..ad0ba42 100644
--- a/vtdxml/common/common.go
+++ b/vtdxml/common/common.go
@@ -22,6 +22,7 @@ const (
 const (
 	MaskTokenType       uint64 = 0xF000000000000000
 	MaskTokenOffset     uint64 = 0x000000003FFFFFFF
+	MaskTokenOffsetNoNs uint64 = 0x000000007FFFFFFF
 	MaskTokenQnLength   uint64 = 0x000007FF00000000
 	MaskTokenFullLength uint64 = 0x000FFFFF00000000
 	MaskTokenPreLength  uint64 = 0x000FF80000000000
diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index f7a027b..fd7669b 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -47,6 +47,10 @@ func (n *VtdNav) GetTokenOffset(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
+	if !n.nsAware {
+		// without namespaces documents can have up to 2 GB
+		return int32(uint64(val) & common.MaskTokenOffsetNoNs), nil
+	}
 	return int32(uint64(val) & common.MaskTokenOffset), nil
 }
 
-- 
2.43.0


From 1d72db6b3891d705981cd1d6dad583d6ef661253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 36/41] fix: resolve references in strings

A decimal reference never returned, &amp; and &apos; failed, the characters of
the other references were repeated behind the resolved character, and characters
beyond 0xFF were cut to a byte.
---
 vtdxml/navigation/get_char_resolved.go | 20 +++++++++++++-------
 vtdxml/navigation/to_string.go         | 15 +++++++++++----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..01a9adc 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -5,13 +5,16 @@ import (
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character in the lower half and the number
+// of characters it is written with in the upper half. Bytes that do not start a
+// reference are returned one by one
+func (n *VtdNav) getCharResolved(offset int) (uint64, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
 		return 0, err
 	}
-	if ch != '&' {
-		return uint32(ch), nil
+	if uint32(ch) != '&' {
+		return uint64(uint32(ch)) | 1<<32, nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
@@ -23,7 +26,7 @@ func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return uint64(val) | inc<<32, nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
@@ -78,6 +81,8 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					offset++
+					inc++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
@@ -87,7 +92,8 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			if !n.xmlChar.IsValidChar(value) {
 				return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
 			}
-			return inc, value, nil
+			// count the ; as well
+			return inc + 1, value, nil
 		}
 	case 'a':
 		{
@@ -98,13 +104,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..a355621 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -29,13 +29,20 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getCharResolved(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; {
+		ch, err := n.getCharResolved(i)
 		if err != nil {
 			return "", err
 		}
-		buffer.WriteByte(byte(ch))
+		inc := int(ch >> 32)
+		if inc > 1 {
+			// resolved reference
+			buffer.WriteRune(rune(uint32(ch)))
+		} else {
+			buffer.WriteByte(byte(ch))
+		}
+		i += inc
 	}
 
 	return buffer.String(), nil
-- 
2.43.0


From d5a1dba76a27533df840ef5b82ee644615ffaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 37/41] fix: strings that end with a CR and ranges that
 overflow

A CR at the end of the document was returned as NUL, negative and overflowing
ranges as an empty string.
---
 vtdxml/navigation/get_char_resolved.go | 15 +++------------
 vtdxml/navigation/to_string.go         | 13 ++++++++++---
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 01a9adc..cb5cfcf 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -192,10 +192,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -208,10 +205,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
@@ -224,10 +218,7 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 		{
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
-				if ifErr != nil {
-					return 0, nil
-				}
-				if b2 == '\n' {
+				if ifErr == nil && b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
 				} else {
 					return uint64(int('\n') | (1 << 32)), nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index a355621..fed7de5 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
 func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
@@ -29,6 +30,9 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
+	if length < 0 {
+		return "", erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
+	}
 	endOffset := int(offset) + int(length)
 	for i := int(offset); i < endOffset; {
 		ch, err := n.getCharResolved(i)
@@ -79,9 +83,12 @@ func (n *VtdNav) ToRawStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getChar(int(i))
+	if length < 0 {
+		return "", erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
+	}
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; i++ {
+		ch, err := n.getChar(i)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 1a460089aee31d31f7196252493fab1ce4f5e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 38/41] fix: report encodings that navigation cannot decode

Their characters were returned as NUL.
---
 vtdxml/navigation/decode.go            | 4 +++-
 vtdxml/navigation/get_char_resolved.go | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/vtdxml/navigation/decode.go b/vtdxml/navigation/decode.go
index e685ac3..ea0208a 100644
--- a/vtdxml/navigation/decode.go
+++ b/vtdxml/navigation/decode.go
@@ -1,6 +1,8 @@
 package navigation
 
+import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+
 func (n *VtdNav) decode(offset int) (uint32, error) {
 	// TODO implement
-	return 0, nil
+	return 0, erroring.NewEncodingError("encoding is not supported")
 }
diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index cb5cfcf..31597ab 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -154,7 +154,7 @@ func (n *VtdNav) getCharUnit(offset int) (uint32, error) {
 		return uint32(b & 0xFF), nil
 	}
 
-	if (n.encoding > common.FormatIso88591 && n.encoding < common.FormatIso885916) ||
+	if (n.encoding > common.FormatIso88591 && n.encoding <= common.FormatIso885916) ||
 		(n.encoding >= common.FormatWin1250 && n.encoding <= common.FormatWin1258) {
 		return n.decode(offset)
 	}
@@ -241,15 +241,15 @@ func (n *VtdNav) getChar4OtherEncodings(offset int) (uint64, error) {
 		return 0, erroring.NewEncodingError("unknown encoding")
 	}
 	// TODO implement
-	return 0, nil
+	return 0, erroring.NewEncodingError("encoding is not supported")
 }
 
 func (n *VtdNav) getCharUtf16BE(offset int) (uint64, error) {
 	// TODO implement
-	return 0, nil
+	return 0, erroring.NewEncodingError("encoding is not supported")
 }
 
 func (n *VtdNav) getCharUtf16LE(offset int) (uint64, error) {
 	// TODO implement
-	return 0, nil
+	return 0, erroring.NewEncodingError("encoding is not supported")
 }
-- 
2.43.0


From 895b2db168085c4041c18bd0de15243d9159ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 39/41] fix: the XML declaration starts with <?xml in lower
 case

Other spellings are reserved targets and are refused everywhere else.
---
 vtdxml/parser/process_doc_start.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index ab36f32..3e14fb6 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -9,9 +9,9 @@ func (p *VtdParser) processDocStart() (State, error) {
 	if p.currentChar == '<' {
 		p.lastOffset = p.offset
 		if p.skipChar('?') &&
-			(p.skipChar('x') || p.skipChar('X')) &&
-			(p.skipChar('m') || p.skipChar('M')) &&
-			(p.skipChar('l') || p.skipChar('L')) {
+			p.skipChar('x') &&
+			p.skipChar('m') &&
+			p.skipChar('l') {
 			if p.skipChar(' ') ||
 				p.skipChar('\t') ||
 				p.skipChar('\n') ||
-- 
2.43.0


From c887c9eee2a0319dd54a7a439d3b71b698bdb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 40/41] fix: reading with the ASCII reader from a negative
 offset

---
 vtdxml/reader/ascii_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index cbadc16..350ef6f 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -33,6 +33,9 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 	if r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
+	if r.offset < 0 {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[r.offset]
 	r.offset++
 	if !r.isASCII(ch) {
-- 
2.43.0


From 32929d15b368d8ff136134199f0177e7666f6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 41/41] fix: the maximum document size does not count the byte
 order mark twice

---
 vtdxml/parser/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 0369bfc..6e3c51c 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -451,16 +451,16 @@ func (p *VtdParser) decideEncoding() error {
 
 	if p.encoding < common.FormatUtf16BE {
 		if p.nsAware {
-			if (p.offset + p.docLength) >= 1<<30 {
+			if p.endOffset >= 1<<30 {
 				return erroring.NewInternalError("file size too big >= 1GB", nil)
 			}
 		} else {
-			if (p.offset + p.docLength) >= 1<<31 {
+			if p.endOffset >= 1<<31 {
 				return erroring.NewInternalError("file size too big >= 2GB", nil)
 			}
 		}
 	} else {
-		if (p.offset + p.docLength) >= 1<<31 {
+		if p.endOffset >= 1<<31 {
 			return erroring.NewInternalError("file size too big >= 2GB", nil)
 		}
 	}
-- 
2.43.0

