From ed556c70740a47e4f36b5392882935e3a5687a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 01/44] fix: long/int buffers address entries past the first
 page and append at the current size

LongAt/IntAt/ModifyEntry compared the absolute index with the length of one
page, so nothing past the first page could be read or modified; Append after
Clear failed and Append after a shrinking SetSize wrote past the size; the
array conversions returned entries past the size.
---
 vtdxml/buffer/int_buffer.go  | 16 ++++++++++++----
 vtdxml/buffer/long_buffer.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..3561ac0 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -112,6 +112,10 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			// if error occurs stop iteration and return error
 			return nil, err
 		}
+		// the last page may hold entries past the current size
+		if len(buffer) > size {
+			buffer = buffer[:size]
+		}
 		// load-in buffer page into int32 slice
 		for j := range buffer {
 			v := buffer[j]
@@ -130,6 +134,10 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
+		// drop entries past the current size (left by Clear or SetSize)
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
@@ -146,14 +154,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..d0ff68a 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -132,6 +132,10 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			// if error occurs stop iteration and return error
 			return nil, err
 		}
+		// the last page may hold entries past the current size
+		if len(buffer) > size {
+			buffer = buffer[:size]
+		}
 		// load-in buffer page into int64 slice
 		for j := range buffer {
 			v := buffer[j]
@@ -150,6 +154,10 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
+		// drop entries past the current size (left by Clear or SetSize)
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
@@ -166,14 +174,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 26d647e07246f5f326147c0752c37869a8952d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 02/44] fix: Upper32At keeps all upper 32 bits

---
 vtdxml/buffer/long_buffer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index d0ff68a..2f0da7c 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -110,7 +110,6 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
 	valueLong = valueLong >> 32
 	valueInt := int32(valueLong)
 	return valueInt, nil
-- 
2.43.0


From 593af7ac3b475569c6995cf9fb610bd3675ae0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 03/44] fix: reject unusable buffer page exponents instead of
 panicking

---
 vtdxml/buffer/int_buffer.go    | 2 +-
 vtdxml/buffer/long_buffer.go   | 6 +++++-
 vtdxml/buffer/object_buffer.go | 6 +++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 3561ac0..097711f 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 2f0da7c..5a04eba 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,6 +31,10 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
+		if size < 0 {
+			b.pageSize = 0
+			return
+		}
 		b.pageSize = 1 << size
 		b.exp = size
 		b.r = b.pageSize - 1
@@ -50,7 +54,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..0bed9bd 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,6 +28,10 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
+		if size < 0 {
+			b.pageSize = 0
+			return
+		}
 		b.pageSize = 1 << size
 		b.exp = size
 		b.r = b.pageSize - 1
@@ -47,7 +51,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From 399b77ba7eda2b622b7295d8495b7b16d6c563c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 04/44] fix: object buffer opens a new page when the last one
 is full

Append kept growing page 0 for ever and used the page count as an entry
count, so entries past the first page could not be read and Append failed
or wrote to the wrong place after Clear.
---
 vtdxml/buffer/object_buffer.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 0bed9bd..b58e17f 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -66,7 +66,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -97,8 +97,13 @@ func (b *FastObjectBuffer) SetSize(size int) {
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	if b.size < 0 {
+		b.size = 0
+	} else if b.size > len(b.buffer) {
+		b.size = len(b.buffer)
+	}
+	// size counts pages, the last of them may still have room
+	if pageNum := b.size - 1; pageNum >= 0 && len(b.buffer[pageNum]) < b.pageSize {
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
@@ -106,9 +111,10 @@ func (b *FastObjectBuffer) Append(value interface{}) error {
 		bufferSlice = append(bufferSlice, value)
 		return b.set(pageNum, bufferSlice)
 	} else {
+		// drop pages past the current size (left by Clear or SetSize)
+		b.buffer = append(b.buffer[:b.size], []interface{}{value})
 		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
+		b.capacity = len(b.buffer) * b.pageSize
 		return nil
 	}
 }
@@ -118,14 +124,14 @@ func (b *FastObjectBuffer) Clear() {
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastObjectBuffer) set(index int, value []interface{}) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 5a37fb7db9d80032e1a4ad7d9f10fbe138aa37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 05/44] fix: GetByteSlice returns length bytes starting at
 offset

---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From f3f40399fff7957601b645fc5a43db63b16f37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 06/44] fix: readers stay inside the document window

SkipChar, GetCharAt and GetLongCharAt read past the end offset (and panicked
at the end of the document), SkipCharSeq consumed a partial match, and the
ASCII reader refused a window that ends where the document ends.
---
 vtdxml/reader/ascii_reader.go | 14 +++++++++++---
 vtdxml/reader/utf8_reader.go  | 12 ++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..a020ca8 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
@@ -42,15 +42,18 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -59,8 +62,10 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	start := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = start
 			return false
 		}
 	}
@@ -68,6 +73,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..8e7a06b 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -42,19 +42,25 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
@@ -63,8 +69,10 @@ func (r *Utf8Reader) SkipChar(ch uint32) bool {
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	start := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = start
 			return false
 		}
 	}
-- 
2.43.0


From 637914c2ccd3ec657b65cca6f0a73e728c99d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 07/44] fix: decode multi-byte UTF-8 characters

The UTF-8 reader returned single bytes, so names outside ASCII were rejected
and malformed UTF-8 was accepted; the start of an attribute name is taken
from the position of its first character, however many bytes it has.
---
 vtdxml/parser/common.go           |  7 ++++++-
 vtdxml/parser/process_attr_val.go |  6 +++++-
 vtdxml/reader/utf8_reader.go      | 18 +++++++++---------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..dcbeaf5 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -332,7 +332,12 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 		common.FormatIso885910, common.FormatIso885911, common.FormatIso885912, common.FormatIso885913, common.FormatIso885914,
 		common.FormatIso885915, common.FormatIso885916, common.FormatWin1250, common.FormatWin1251, common.FormatWin1252,
 		common.FormatWin1253, common.FormatWin1254, common.FormatWin1255, common.FormatWin1256, common.FormatWin1257, common.FormatWin1258:
-		return p.offset - 1, nil
+		// the character just read may be a multi-byte UTF-8 sequence
+		prevOffset--
+		for prevOffset > p.docOffset && p.xmlDoc[prevOffset]&byte(0xc0) == byte(0x80) {
+			prevOffset--
+		}
+		return prevOffset, nil
 	case common.FormatUtf16LE, common.FormatUtf16BE:
 		temp := (uint32(p.xmlDoc[p.offset])&0xFFFF)<<8 | (uint32(p.xmlDoc[p.offset+1]) & 0xFFFF)
 		if temp < 0xd800 || temp > 0xdfff {
diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..ed48a7a 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -94,7 +94,11 @@ func (p *VtdParser) processAttrVal() (State, error) {
 			return StateInvalid, err
 		}
 		if p.xmlChar.IsNameStartChar(p.currentChar) {
-			p.lastOffset = p.offset - p.increment
+			offset, err := p.getPrevOffset()
+			if err != nil {
+				return StateInvalid, err
+			}
+			p.lastOffset = offset
 			return StateAttrName, nil
 		}
 	}
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8e7a06b..aa0e9a0 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -1,7 +1,7 @@
 package reader
 
 import (
-	"unicode"
+	"unicode/utf8"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
@@ -33,9 +33,9 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 	if r.offset >= r.endOffset {
 		return 0, erroring.NewEOFError(erroring.XmlIncomplete)
 	}
-	ch := r.xmlDoc[r.offset]
-	r.offset++
-	if !r.isUTF8(ch) {
+	ch, size := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	r.offset += size
+	if ch == utf8.RuneError && size == 1 {
 		return 0, erroring.NewParseError("invalid UTF-8 character", "", nil)
 	}
 	return uint32(ch), nil
@@ -49,6 +49,11 @@ func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
 	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[offset+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
+	if ch >= utf8.RuneSelf {
+		if char, size := utf8.DecodeRune(r.xmlDoc[offset:r.endOffset]); size > 1 {
+			return uint64(size)<<32 | uint64(char), nil
+		}
+	}
 	return (1 << 32) | uint64(ch), nil
 }
 
@@ -86,8 +91,3 @@ func (r *Utf8Reader) GetOffset() int {
 func (r *Utf8Reader) SetOffset(offset int) {
 	r.offset = offset
 }
-
-// isUTF8 function to validate if a character is a valid ASCII character
-func (r *Utf8Reader) isUTF8(ch uint8) bool {
-	return uint32(ch) <= unicode.MaxRune
-}
-- 
2.43.0


From 3ffbed1f2a16d81f428daedbb28698e0cb887dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 08/44] fix: Parse does not print debug output

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..d5c1737 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From 8d3046fa78b3bae3969a614057c4cd95b11ec894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 09/44] fix: Parse does not overwrite the shared EOFErrorType
 value

---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d5c1737..ed4e168 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -22,6 +22,7 @@ func (p *VtdParser) Parse() error {
 
 	var ps State
 	var err error
+	var eofErr *erroring.EOFError
 	for {
 		switch parserState {
 		case StateDocType:
@@ -62,7 +63,7 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From e357286762a7974a0c218e0ad8fd9fca15364d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 10/44] fix: reject a negative or overflowing document length

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..bbea421 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -129,7 +129,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From 4b0d7c7ef398b4a7ab2447bf7102cc85bb483ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 11/44] fix: detect the UTF-8 byte order mark and do not sniff
 past the document

Bytes were compared with negative numbers, so a document with a UTF-8 byte
order mark was always rejected; documents shorter than four bytes made the
sniffing read past their end.
---
 vtdxml/parser/common.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index dcbeaf5..1a5c31c 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -370,7 +370,8 @@ func (p *VtdParser) decideEncoding() error {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
 	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
+		if p.length > 3 &&
+			int32(p.xmlDoc[p.offset+1]) == 0x3c &&
 			int32(p.xmlDoc[p.offset+2]) == 0 &&
 			int32(p.xmlDoc[p.offset+3]) == 0x3f {
 			p.encoding = common.FormatUtf16BE
@@ -379,16 +380,18 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
-			p.offset += 3
+	} else if int32(p.xmlDoc[p.offset]) == 0xef {
+		if p.length > 2 &&
+			int32(p.xmlDoc[p.offset+1]) == 0xbb &&
+			int32(p.xmlDoc[p.offset+2]) == 0xbf {
+			p.setOffset(p.offset + 3)
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
 	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
+		if p.length > 3 &&
+			int32(p.xmlDoc[p.offset+1]) == 0 &&
 			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
 			int32(p.xmlDoc[p.offset+3]) == 0 {
 			p.encoding = common.FormatUtf16LE
-- 
2.43.0


From f66906124bdd2fe7983c7736393cfeb9da5e585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:49 +0000
Subject: [PATCH 12/44] fix: move the reader too when the parser steps back in
 the document

A document that starts with a processing instruction lost the first
characters of its target, and the character after <?xml was not checked.
---
 vtdxml/parser/process_doc_start.go | 2 +-
 vtdxml/parser/process_lt_seen.go   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..350d3a0 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,7 +25,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..ee1bc3f 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -79,6 +79,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From 6660cbd07b09b9e423f3234dfdae39dd6d829259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:53 +0000
Subject: [PATCH 13/44] fix: accept DOCTYPE in the prolog and reject it inside
 elements

---
 vtdxml/parser/process.go         | 4 ----
 vtdxml/parser/process_lt_seen.go | 9 ++++++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..5c505f9 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -18,10 +18,6 @@ func (p *VtdParser) validateSeq(seq string) error {
 				p.fmtLine(), nil)
 		}
 	}
-	if p.depth < 0 {
-		return erroring.NewParseError(fmt.Sprintf("wrong place for %s", seq),
-			p.fmtLine(), nil)
-	}
 	return nil
 }
 
diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index ee1bc3f..1cec101 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -44,12 +44,19 @@ func (p *VtdParser) processExSeen() (State, error) {
 		if err := p.validateSeq(cdata); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth < 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for CDATA", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
-		if err := p.validateSeq(docType); err != nil {
+		// the first character has been read already
+		if err := p.validateSeq(docType[1:]); err != nil {
 			return StateInvalid, err
 		}
+		if p.depth >= 0 {
+			return StateInvalid, erroring.NewParseError("wrong place for DOCTYPE", p.fmtLine(), nil)
+		}
 		p.lastOffset = p.offset
 		return StateDocType, nil
 	default:
-- 
2.43.0


From a5579b587d621d756a76499fab14bd2c6d69e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 14/44] fix: reject an ending tag outside the root element
 instead of panicking

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..6ac75ae 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("ending tag without a starting tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From ba7c164a9dfd0c0fcec976245722a94acf1c70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 15/44] fix: text that follows an ending tag may start with a
 reference or ]

---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 6ac75ae..1ca608d 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From c658db74fdee4ee774a8ca60695ef1ede642689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:06 +0000
Subject: [PATCH 16/44] fix: only ]]> ends a CDATA section and is forbidden in
 text

A single ] before > ended a CDATA section (cutting one byte off the token)
and was rejected in text.
---
 vtdxml/parser/common.go        | 4 +++-
 vtdxml/parser/process.go       | 4 +++-
 vtdxml/parser/process_cdata.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 1a5c31c..fadccaa 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -565,9 +565,11 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 	case ']':
 		{
 			// skip all ] chars
+			count := 1
 			for p.skipChar(']') {
+				count++
 			}
-			if p.skipChar('>') {
+			if count > 1 && p.skipChar('>') {
 				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 			}
 			break
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 5c505f9..e32e042 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -42,9 +42,11 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 	}
 	if ch == ']' {
 		// skip all ] chars
+		count := 1
 		for p.skipChar(']') {
+			count++
 		}
-		if p.skipChar('>') {
+		if count > 1 && p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
 		}
 		return StateText, nil
diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..6c562c5 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -15,9 +15,11 @@ func (p *VtdParser) processCdata() (State, error) {
 		}
 		if p.currentChar == ']' {
 			// skip all ] chars
+			count := 1
 			for p.skipChar(']') {
+				count++
 			}
-			if p.skipChar('>') {
+			if count > 1 && p.skipChar('>') {
 				break
 			}
 		}
-- 
2.43.0


From 7753e399cdfab540dd57722dbf7060db1c49b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 17/44] fix: accept comments after the root element

---
 vtdxml/parser/process_end_comment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
-- 
2.43.0


From f62f5e8c5a8b55776c9c76f8c6363f7dff79a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:12 +0000
Subject: [PATCH 18/44] fix: accept a processing instruction without value
 after the root element

---
 vtdxml/parser/process_pi_end.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From a3e18cc3b5bbe3653fd6cdb0ef592d93236c93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 19/44] fix: store the prefix length of an element name in its
 own bits

---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From 3d55139fcab471d96751255a8f6c2c620ee4df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 20/44] fix: an element may have more than 256 attributes

---
 vtdxml/parser/process_attr_name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..d6c7a69 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,6 +129,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
+	if p.attrCount == len(p.attrNameSlice) {
+		p.attrNameSlice = append(p.attrNameSlice, 0)
+	}
 	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
@@ -136,6 +139,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
+		if p.prefixedAttCount == len(p.prefixedAttrNameSlice) {
+			p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice, 0)
+		}
 		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
 		p.prefixedAttCount++
 	}
-- 
2.43.0


From 49d8c35f7011badeb80bfe9ed70679dd5321a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 21/44] fix: compare the namespaces of qualified attributes

The index of the namespace of each prefixed attribute was appended behind
256 zeros and read from the front, and the comparison of two namespace names
never stopped at their ends.
---
 vtdxml/parser/process_attr_val.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index ed48a7a..eb9752f 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -192,6 +192,7 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 
 func (p *VtdParser) qualifyAttributes() error {
 	nsBuffer3Count := p.nsBuffer3.GetSize() - 1
+	p.prefixUrlSlice = p.prefixUrlSlice[:0]
 	for j := 0; j < p.prefixedAttCount; j++ {
 		preLen := int(int32((p.prefixedAttrNameSlice[j] & 0xFFFF0000) >> 16))
 		preOs := int(int32(p.prefixedAttrNameSlice[j] >> 32))
@@ -461,8 +462,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -471,14 +472,14 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
-			return false, err
+		// the upper half holds the number of bytes read
+		if int32(chA) != int32(chB) {
+			return false, nil
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
+	if a.offset == endA && b.offset == endB {
 		return true, nil
 	}
 	return false, nil
-- 
2.43.0


From 82f648dcebb6df6b8748cd1c036b84e3ce1a7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 22/44] fix: resolve &amp; and &apos; at the requested offset
 in namespace names

The second character was taken from the parser's own position, which lost
document text.
---
 vtdxml/parser/process_attr_val.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index eb9752f..3718a8f 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -366,10 +366,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -383,7 +384,7 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
 				}
 			} else {
-- 
2.43.0


From 2515e6a9acf99c728814df4719e01cddea47b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 23/44] fix: recognise the reserved namespace names

Characters were compared with their byte counts still attached, so no
declaration was ever recognised: binding the reserved names was accepted and
the one legal declaration of the prefix xml was rejected.
---
 vtdxml/parser/process_attr_val.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 3718a8f..a63a0bd 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,7 +54,9 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
+		if p.isXml && nsUrlType == NsUrl2000 {
+			// the only namespace that the prefix xml can be bound to
+		} else if p.isXml {
 			return StateInvalid, erroring.NewParseError(
 				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
 				p.fmtLine(),
@@ -154,37 +156,38 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
 		offset += int(ch) >> 32
 	}
 	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
+	i := 0
+	for ; i < 11 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
+		if int32(URL1[i]) != int32(ch) {
+			break
 		}
 		offset += int(ch) >> 32
 	}
-	if offset == g {
+	if i == 11 && offset == g {
 		return NsUrl1998, nil
 	}
 	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
+	for i = 18; i < 36 && offset < g; i++ {
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
 			return InvalidNsUrl, err
 		}
-		if int64(URL2[i]) != ch {
+		if int32(URL2[i]) != int32(ch) {
 			return DefaultNsUrl, nil
 		}
 		offset += int(ch) >> 32
 	}
-	if offset == g {
+	if i == 36 && offset == g {
 		return NsUrl2000, nil
 	}
 	return DefaultNsUrl, nil
-- 
2.43.0


From 7664bc073ff5fb3835657caa2c6e3f5d4289c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 24/44] fix: only xml and xmlns are reserved prefixes, not
 longer ones that start with them

---
 vtdxml/parser/common.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index fadccaa..d9cb4cb 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -449,7 +449,8 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		valid = (p.encoding < common.FormatUtf16BE && length == 4) ||
+			(p.encoding >= common.FormatUtf16BE && length == 8)
 	}
 	return valid
 }
@@ -490,7 +491,8 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		valid = (p.encoding < common.FormatUtf16BE && length == 5) ||
+			(p.encoding >= common.FormatUtf16BE && length == 10)
 	}
 	return valid
 }
-- 
2.43.0


From 319e9f398bce2424e2c793c40549cf6a3212fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:36 +0000
Subject: [PATCH 25/44] fix: reject numeric references above U+10FFFF instead
 of wrapping around

---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index d9cb4cb..8e519cb 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -629,6 +630,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -639,6 +643,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From 4878f33a85228394bd0591b45d17c2914fb3adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 26/44] fix: the parts of a long text start at the offset of
 the text

---
 vtdxml/parser/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 8e519cb..ed3fd33 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -244,7 +244,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
+		var j int
+		rOffset := offset
 		for j = length; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
-- 
2.43.0


From d6af3b4ba0abf2097e87ee2d830893aa7462637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 27/44] fix: accept documents declared as ASCII or US-ASCII

---
 vtdxml/parser/process_dec_attr_name.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..a87677a 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -149,7 +149,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipChar('s') || p.skipChar('S') {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
@@ -241,7 +241,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding == common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -260,7 +260,7 @@ func (p *VtdParser) checkUsAsciiEncoding() error {
 	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding == common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
-- 
2.43.0


From 0aa83a98a41407882eb33ff8f7608f846d26f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 28/44] fix: reject the incomplete encoding names cp125 and
 windows-125

---
 vtdxml/parser/process_dec_attr_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index a87677a..5a63107 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -453,7 +453,7 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
-- 
2.43.0


From 8d487c6ecc45442213fba54ad15a106cca1aeef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 29/44] fix: XML declaration values end with the quote they
 start with

Also require whitespace between encoding and standalone.
---
 vtdxml/parser/process_dec_attr_name.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 5a63107..06f60cc 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -132,6 +132,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	p.lastOffset = p.offset
+	quote := p.currentChar
 	if err := p.nextChar(); err != nil {
 		return err
 	}
@@ -168,12 +169,19 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
-	if err := p.nextCharAfterWs(); err != nil {
+	if err := p.nextChar(); err != nil {
 		return err
 	}
+	if p.xmlChar.IsSpaceChar(p.currentChar) {
+		if err := p.nextCharAfterWs(); err != nil {
+			return err
+		}
+	} else if p.currentChar != '?' {
+		return erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset - p.increment
 	return nil
 }
@@ -201,6 +209,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,7 +237,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
+	if p.currentChar != quote {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
-- 
2.43.0


From a923cced49565241bfb200e151986f06efe46f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:51 +0000
Subject: [PATCH 30/44] fix: mark childless location cache entries with
 0xFFFFFFFF

The navigation takes -1 in the lower half as no child; 0xFFFF is an index.
---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index ed3fd33..b418dc7 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -147,19 +147,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -174,15 +174,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -197,11 +197,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -216,7 +216,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index ed4e168..d9d8b1c 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From f9c43efd63860302db5ab5e478c8bb3650a38497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 31/44] fix: the navigation context has room for the deepest
 level

context[0] holds the level, so a document of depth d needs d+1 entries.
---
 vtdxml/navigation/vtd_nav.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/navigation/vtd_nav.go b/vtdxml/navigation/vtd_nav.go
index 9e06357..6525505 100644
--- a/vtdxml/navigation/vtd_nav.go
+++ b/vtdxml/navigation/vtd_nav.go
@@ -59,11 +59,11 @@ func NewVtdNav(
 		l1Buffer:  l1Buffer,
 		l2Buffer:  l2Buffer,
 		l3Buffer:  l3Buffer,
-		context:   make([]int32, 0, depth),
+		context:   make([]int32, 0, depth+1),
 		xmlChar:   common.NewXmlChar(),
 	}
 
-	for i := 0; i < int(depth); i++ {
+	for i := 0; i <= int(depth); i++ {
 		n.context = append(n.context, -1)
 	}
 
-- 
2.43.0


From 00e989e353afa794fe7cd12284de9a016eaddab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 32/44] fix: navigate levels 2 and 3 with their own location
 caches

---
 vtdxml/navigation/to_element.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index ee81b84..4cf3cc1 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -134,7 +134,7 @@ func (n *VtdNav) toChildElement(dir Direction) (bool, error) {
 			} else {
 				n.l3index = int(n.l3upper)
 			}
-			upper, err := n.l2Buffer.Upper32At(n.l2index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, nil
 			}
@@ -245,7 +245,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l2index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l2Buffer.Upper32At(n.l2index)
 			if err != nil {
 				return false, err
 			}
@@ -265,7 +265,7 @@ func (n *VtdNav) toSiblingElement(dir Direction) (bool, error) {
 				}
 				n.l3index--
 			}
-			upper, err := n.l1Buffer.Upper32At(n.l1index)
+			upper, err := n.l3Buffer.Upper32At(n.l3index)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From fb82265c0f5a18b2d45f2accf85ad01883501545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 33/44] fix: find the next sibling below level 3

---
 vtdxml/navigation/to_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/navigation/to_element.go b/vtdxml/navigation/to_element.go
index 4cf3cc1..e1bded5 100644
--- a/vtdxml/navigation/to_element.go
+++ b/vtdxml/navigation/to_element.go
@@ -295,7 +295,7 @@ func (n *VtdNav) toNextSibling() (bool, error) {
 			return false, err
 		}
 		if common.Token(tokenType) == common.TokenStartingTag {
-			if depth <= n.context[0] {
+			if depth < n.context[0] {
 				return false, nil
 			} else if depth == n.context[0] {
 				n.context[n.context[0]] = int32(index)
-- 
2.43.0


From f3ac4876c626cf87709ed6518e3074257296e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 34/44] fix: length of text, CDATA and comment tokens

The length of an empty token included the following token, and only the
first part of a split token was counted.
---
 vtdxml/navigation/common.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/vtdxml/navigation/common.go b/vtdxml/navigation/common.go
index e079b6e..29d815b 100644
--- a/vtdxml/navigation/common.go
+++ b/vtdxml/navigation/common.go
@@ -91,27 +91,34 @@ func (n *VtdNav) GetTokenLength(index int) (int32, error) {
 			if caseErr != nil {
 				return 0, caseErr
 			}
-			var offset int32
-			var tokenTypeNew, tokenOffsetNew, tokenDepthNew int32
-			tokenDepthNew = depth
-			tokenTypeNew = tokenType
-
-			for i := index; i < n.vtdBuffer.GetSize() &&
-				depth == tokenDepthNew &&
-				tokenType == tokenTypeNew &&
-				offset == tokenOffsetNew; i++ {
+			var endOffset int32
 
+			// a long text is split into tokens that follow each other without a gap
+			for i := index; i < n.vtdBuffer.GetSize(); i++ {
 				val, forErr := n.vtdBuffer.LongAt(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				length += (uint64(val) & common.MaskTokenFullLength) >> 32
-
-				tokenOffsetNew, forErr = n.GetTokenOffset(i)
+				tokenTypeNew, forErr := n.GetTokenType(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				tokenDepthNew, forErr := n.GetTokenDepth(i)
 				if forErr != nil {
 					return 0, forErr
 				}
-				tokenOffsetNew = int32((uint64(val) & common.MaskTokenFullLength) >> 32)
+				tokenOffsetNew, forErr := n.GetTokenOffset(i)
+				if forErr != nil {
+					return 0, forErr
+				}
+				if i > index && (depth != tokenDepthNew ||
+					tokenType != tokenTypeNew ||
+					endOffset != tokenOffsetNew) {
+					break
+				}
+				tokenLength := (uint64(val) & common.MaskTokenFullLength) >> 32
+				length += tokenLength
+				endOffset = tokenOffsetNew + int32(tokenLength)
 			}
 			return int32(length), nil
 		}
-- 
2.43.0


From c4a7254971631e246e0038a1503ead75bbe21974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 35/44] fix: a carriage return at the end of the document reads
 as a line feed

---
 vtdxml/navigation/get_char_resolved.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index fa954b5..3c52788 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -187,7 +187,8 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					// carriage return at the end of the document
+					return uint64(int('\n') | (1 << 32)), nil
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
@@ -203,7 +204,8 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					// carriage return at the end of the document
+					return uint64(int('\n') | (1 << 32)), nil
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
@@ -219,7 +221,8 @@ func (n *VtdNav) getChar(offset int) (uint64, error) {
 			if b == '\r' {
 				b2, ifErr := n.xmlBuffer.ByteAt(offset + 1)
 				if ifErr != nil {
-					return 0, nil
+					// carriage return at the end of the document
+					return uint64(int('\n') | (1 << 32)), nil
 				}
 				if b2 == '\n' {
 					return uint64(int(b2) | (2 << 32)), nil
-- 
2.43.0


From 8a5427e0ac237f6bb79c330fa43df5caace61ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 36/44] fix: resolve references in strings

ToString kept the text of a reference behind its character, could not
resolve &amp; and &apos;, did not terminate on decimal references and cut
characters above 0xFF to a byte.
---
 vtdxml/navigation/get_char_resolved.go | 24 +++++++++++++++++++-----
 vtdxml/navigation/to_string.go         |  8 +++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 3c52788..5aa01f8 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -1,17 +1,21 @@
 package navigation
 
 import (
+	"unicode"
+
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 )
 
-func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
+// getCharResolved function returns the character at the offset in the lower
+// half and, for a reference, the number of bytes it takes in the upper half
+func (n *VtdNav) getCharResolved(offset int) (uint64, error) {
 	ch, err := n.getChar(offset)
 	if err != nil {
 		return 0, err
 	}
 	if ch != '&' {
-		return uint32(ch), nil
+		return uint64(uint32(ch)), nil
 	}
 	offset++
 	ch2, err := n.getCharUnit(offset)
@@ -23,7 +27,7 @@ func (n *VtdNav) getCharResolved(offset int) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return val | uint32(inc<<32), nil
+	return uint64(val) | inc<<32, nil
 }
 
 func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
@@ -50,6 +54,7 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			inc = 2
 			if ch2 == 'x' {
+				inc++
 				for {
 					offset++
 					inc++
@@ -68,6 +73,9 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -78,11 +86,17 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 					} else {
 						return 0, 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					offset++
+					inc++
 					ch2, err = n.getCharUnit(offset)
 					if err != nil {
 						return 0, 0, err
 					}
+					if value > unicode.MaxRune {
+						return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
+				inc++
 			}
 			if !n.xmlChar.IsValidChar(value) {
 				return 0, 0, erroring.NewEntityError(erroring.InvalidChar)
@@ -98,13 +112,13 @@ func (n *VtdNav) resolveEntity(offset int, ch uint32) (uint64, uint32, error) {
 			}
 			if ch2 == 'm' {
 				// checks that the sequence matcher &amp;
-				if err := checkSeq(offset, "p;"); err != nil {
+				if err := checkSeq(offset+1, "p;"); err != nil {
 					return 0, 0, err
 				}
 				return 5, '&', nil
 			} else if ch2 == 'p' {
 				// checks that the sequence matcher &apos;
-				if err := checkSeq(offset, "os;"); err != nil {
+				if err := checkSeq(offset+1, "os;"); err != nil {
 					return 0, 0, err
 				}
 				return 6, '\'', nil
diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index 9bb5066..aeff703 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -30,12 +30,18 @@ func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
 	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
+	for i := offset; i < endOffset; {
 		ch, err := n.getCharResolved(int(i))
 		if err != nil {
 			return "", err
 		}
+		if inc := int32(ch >> 32); inc != 0 {
+			buffer.WriteRune(rune(uint32(ch)))
+			i += inc
+			continue
+		}
 		buffer.WriteByte(byte(ch))
+		i++
 	}
 
 	return buffer.String(), nil
-- 
2.43.0


From c5a469ba7d4cdeaba26a75da1c676ad7ee9350e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 37/44] fix: navigation errors are NavigationError, not
 ParseError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From e0f8e880f073f186f726b8810c571bd3b3c4276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:33 +0000
Subject: [PATCH 38/44] fix: recognise a reference in strings

The ampersand was compared together with its byte count, so references were
never resolved.
---
 vtdxml/navigation/get_char_resolved.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/navigation/get_char_resolved.go b/vtdxml/navigation/get_char_resolved.go
index 5aa01f8..795b975 100644
--- a/vtdxml/navigation/get_char_resolved.go
+++ b/vtdxml/navigation/get_char_resolved.go
@@ -14,7 +14,7 @@ func (n *VtdNav) getCharResolved(offset int) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	if ch != '&' {
+	if uint32(ch) != '&' {
 		return uint64(uint32(ch)), nil
 	}
 	offset++
-- 
2.43.0


From bb3b8db935c9f9ca400c28ebb249d4c026e324d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 39/44] verif: hooks behind the build tag verif

Access to the parse result, a seam at the reader, and a memo for the
character tables; no effect without the tag.
---
 vtdxml/common/verif_off.go   | 14 ++++++
 vtdxml/common/verif_on.go    | 98 ++++++++++++++++++++++++++++++++++++
 vtdxml/common/xml_char.go    |  9 ++++
 vtdxml/parser/verif_hooks.go | 31 ++++++++++++
 4 files changed, 152 insertions(+)
 create mode 100644 vtdxml/common/verif_off.go
 create mode 100644 vtdxml/common/verif_on.go
 create mode 100644 vtdxml/parser/verif_hooks.go

diff --git a/vtdxml/common/verif_off.go b/vtdxml/common/verif_off.go
new file mode 100644
index 0000000..e951a63
--- /dev/null
+++ b/vtdxml/common/verif_off.go
@@ -0,0 +1,14 @@
+//go:build !verif || verif_nomemo
+
+package common
+
+// verifShared, verifShare, verifKnown and verifRemember do nothing outside
+// verification builds.
+
+func verifShared() *XmlChar { return nil }
+
+func verifShare(*XmlChar) {}
+
+func verifKnown([]uint32, uint32) (bool, bool) { return false, false }
+
+func verifRemember([]uint32, uint32, bool) {}
diff --git a/vtdxml/common/verif_on.go b/vtdxml/common/verif_on.go
new file mode 100644
index 0000000..9063c6a
--- /dev/null
+++ b/vtdxml/common/verif_on.go
@@ -0,0 +1,98 @@
+//go:build verif && !verif_nomemo
+
+package common
+
+import (
+	"sync"
+	"sync/atomic"
+)
+
+// Verification builds explore very many small documents. They build the
+// character tables once and remember each answer of the linear search.
+
+const (
+	verifChars  = 0x110000
+	verifTables = 8
+)
+
+// verifTable holds two bits for each code point: answered, and the answer.
+type verifTable struct {
+	first *uint32
+	bits  [verifChars / 16]uint32
+}
+
+var (
+	verifMutex sync.Mutex
+	verifX     atomic.Value // *XmlChar
+	verifMemo  atomic.Value // []*verifTable
+)
+
+func verifShared() *XmlChar {
+	x, _ := verifX.Load().(*XmlChar)
+	return x
+}
+
+func verifShare(x *XmlChar) {
+	verifMutex.Lock()
+	defer verifMutex.Unlock()
+	if verifX.Load() == nil {
+		verifX.Store(x)
+	}
+}
+
+func verifFind(arr []uint32) *verifTable {
+	tables, _ := verifMemo.Load().([]*verifTable)
+	for _, t := range tables {
+		if t.first == &arr[0] {
+			return t
+		}
+	}
+	return nil
+}
+
+func verifTableOf(arr []uint32, ch uint32) *verifTable {
+	if len(arr) == 0 || ch >= verifChars {
+		return nil
+	}
+	if t := verifFind(arr); t != nil {
+		return t
+	}
+	verifMutex.Lock()
+	defer verifMutex.Unlock()
+	if t := verifFind(arr); t != nil {
+		return t
+	}
+	tables, _ := verifMemo.Load().([]*verifTable)
+	if len(tables) >= verifTables {
+		return nil
+	}
+	t := &verifTable{first: &arr[0]}
+	verifMemo.Store(append(append([]*verifTable{}, tables...), t))
+	return t
+}
+
+func verifKnown(arr []uint32, ch uint32) (bool, bool) {
+	t := verifTableOf(arr, ch)
+	if t == nil {
+		return false, false
+	}
+	v := atomic.LoadUint32(&t.bits[ch/16]) >> (ch % 16 * 2)
+	return v&1 != 0, v&2 != 0
+}
+
+func verifRemember(arr []uint32, ch uint32, found bool) {
+	t := verifTableOf(arr, ch)
+	if t == nil {
+		return
+	}
+	v := uint32(2)
+	if found {
+		v = 3
+	}
+	for {
+		old := atomic.LoadUint32(&t.bits[ch/16])
+		if atomic.CompareAndSwapUint32(&t.bits[ch/16], old, old|v<<(ch%16*2)) {
+			return
+		}
+	}
+}
diff --git a/vtdxml/common/xml_char.go b/vtdxml/common/xml_char.go
index 167f8be..f0368a9 100644
--- a/vtdxml/common/xml_char.go
+++ b/vtdxml/common/xml_char.go
@@ -10,6 +10,9 @@ type XmlChar struct {
 }
 
 func NewXmlChar() *XmlChar {
+	if x := verifShared(); x != nil {
+		return x
+	}
 	x := &XmlChar{
 		validCharSlice:     make([]uint32, 0),
 		spaceCharSlice:     make([]uint32, 0),
@@ -65,6 +68,7 @@ func NewXmlChar() *XmlChar {
 		x.specialCharSlice = append(x.specialCharSlice, i)
 	}
 
+	verifShare(x)
 	return x
 }
 
@@ -89,10 +93,15 @@ func (x *XmlChar) IsContentChar(ch uint32) bool {
 }
 
 func (x *XmlChar) exists(arr []uint32, ch uint32) bool {
+	if found, known := verifKnown(arr, ch); known {
+		return found
+	}
 	for _, i := range arr {
 		if i == ch {
+			verifRemember(arr, ch, true)
 			return true
 		}
 	}
+	verifRemember(arr, ch, false)
 	return false
 }
diff --git a/vtdxml/parser/verif_hooks.go b/vtdxml/parser/verif_hooks.go
new file mode 100644
index 0000000..52fc06b
--- /dev/null
+++ b/vtdxml/parser/verif_hooks.go
@@ -0,0 +1,31 @@
+//go:build verif
+
+package parser
+
+import (
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
+)
+
+// VerifState is what a finished parse would hand over to the navigation.
+type VerifState struct {
+	Vtd, L1, L2, L3, L4, L5 buffer.LongBuffer
+	RootIndex, VtdDepth     int
+	Encoding                common.FormatEncoding
+}
+
+// VerifState gives verification harnesses access to the result of Parse.
+func (p *VtdParser) VerifState() VerifState {
+	return VerifState{
+		Vtd: p.vtdBuffer, L1: p.l1Buffer, L2: p.l2Buffer, L3: p.l3Buffer, L4: p.l4Buffer, L5: p.l5Buffer,
+		RootIndex: p.rootIndex, VtdDepth: p.vtdDepth,
+		Encoding: p.encoding,
+	}
+}
+
+// VerifWrapReader replaces the byte reader of the parser, so that a harness
+// can schedule its steps.
+func (p *VtdParser) VerifWrapReader(wrap func(reader.Reader) reader.Reader) {
+	p.reader = wrap(p.reader)
+}
-- 
2.43.0


From 9386067cea8cb02b97e6b6856a6e804dba08d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 40/44] verif: small page tables in verification builds

---
 vtdxml/buffer/int_buffer.go  | 2 +-
 vtdxml/buffer/long_buffer.go | 2 +-
 vtdxml/buffer/verif_off.go   | 6 ++++++
 vtdxml/buffer/verif_on.go    | 7 +++++++
 4 files changed, 15 insertions(+), 2 deletions(-)
 create mode 100644 vtdxml/buffer/verif_off.go
 create mode 100644 vtdxml/buffer/verif_on.go

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 097711f..c49ea0b 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -44,7 +44,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		pageSize: DefaultIntPageSize,
 		exp:      10,
 		r:        DefaultIntPageSize - 1,
-		buffer:   make([][]int32, 0, DefaultLongPageSize),
+		buffer:   make([][]int32, 0, pageTableSize),
 	}
 
 	for _, opt := range opts {
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 5a04eba..5fb6744 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -48,7 +48,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 		pageSize: DefaultLongPageSize,
 		exp:      10,
 		r:        DefaultIntPageSize - 1,
-		buffer:   make([][]int64, 0, DefaultLongPageSize),
+		buffer:   make([][]int64, 0, pageTableSize),
 	}
 
 	for _, opt := range opts {
diff --git a/vtdxml/buffer/verif_off.go b/vtdxml/buffer/verif_off.go
new file mode 100644
index 0000000..e239eb4
--- /dev/null
+++ b/vtdxml/buffer/verif_off.go
@@ -0,0 +1,6 @@
+//go:build !verif || verif_nomemo
+
+package buffer
+
+// pageTableSize is the initial capacity of a page table.
+const pageTableSize = DefaultLongPageSize
diff --git a/vtdxml/buffer/verif_on.go b/vtdxml/buffer/verif_on.go
new file mode 100644
index 0000000..149d63d
--- /dev/null
+++ b/vtdxml/buffer/verif_on.go
@@ -0,0 +1,7 @@
+//go:build verif && !verif_nomemo
+
+package buffer
+
+// pageTableSize is the initial capacity of a page table. Verification builds
+// create very many buffers that hold a page or two.
+const pageTableSize = 4
-- 
2.43.0


From 78b0f5d1928cfe78991cc8b02c9a6dea7df8eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 41/44] fix: a string range beyond the int32 range is outside
 the document

---
 vtdxml/navigation/to_string.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtdxml/navigation/to_string.go b/vtdxml/navigation/to_string.go
index aeff703..d7eefb9 100644
--- a/vtdxml/navigation/to_string.go
+++ b/vtdxml/navigation/to_string.go
@@ -29,13 +29,13 @@ func (n *VtdNav) ToStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; {
-		ch, err := n.getCharResolved(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; {
+		ch, err := n.getCharResolved(i)
 		if err != nil {
 			return "", err
 		}
-		if inc := int32(ch >> 32); inc != 0 {
+		if inc := int(ch >> 32); inc != 0 {
 			buffer.WriteRune(rune(uint32(ch)))
 			i += inc
 			continue
@@ -78,9 +78,9 @@ func (n *VtdNav) ToRawStringAtIndex(index int) (string, error) {
 func (n *VtdNav) ToRawStringAtRange(offset, length int32) (string, error) {
 	var buffer bytes.Buffer
 
-	endOffset := offset + length
-	for i := offset; i < endOffset; i++ {
-		ch, err := n.getChar(int(i))
+	endOffset := int(offset) + int(length)
+	for i := int(offset); i < endOffset; i++ {
+		ch, err := n.getChar(i)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 0b511c13f7d8e21d3d82394c7891df5572ea1bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 42/44] fix: readers skip characters, not bytes of characters

---
 vtdxml/reader/ascii_reader.go |  2 +-
 vtdxml/reader/utf8_reader.go  | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index a020ca8..d338dae 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -53,7 +53,7 @@ func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
-	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
+	if r.offset < r.endOffset && ch <= unicode.MaxASCII && ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
 	} else {
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index aa0e9a0..e70a3fb 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -65,12 +65,15 @@ func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
-	if r.offset < r.endOffset && ch == uint32(r.xmlDoc[r.offset]) {
-		r.offset++
-		return true
-	} else {
+	if r.offset >= r.endOffset {
+		return false
+	}
+	next, size := utf8.DecodeRune(r.xmlDoc[r.offset:r.endOffset])
+	if uint32(next) != ch || next == utf8.RuneError && size == 1 {
 		return false
 	}
+	r.offset += size
+	return true
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
-- 
2.43.0


From 1c045b3a8562f5d078727fa3db698394e48288e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 43/44] verif: switch and index for the remembered character
 answers

---
 vtdxml/common/verif_nomemo.go |  9 ++++++++
 vtdxml/common/verif_on.go     | 41 +++++++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 4 deletions(-)
 create mode 100644 vtdxml/common/verif_nomemo.go

diff --git a/vtdxml/common/verif_nomemo.go b/vtdxml/common/verif_nomemo.go
new file mode 100644
index 0000000..2ffba57
--- /dev/null
+++ b/vtdxml/common/verif_nomemo.go
@@ -0,0 +1,9 @@
+//go:build verif && verif_nomemo
+
+package common
+
+// VerifMemory and VerifIndex do nothing where answers are not remembered.
+
+func VerifMemory(bool) {}
+
+func VerifIndex() {}
diff --git a/vtdxml/common/verif_on.go b/vtdxml/common/verif_on.go
index 9063c6a..18f9488 100644
--- a/vtdxml/common/verif_on.go
+++ b/vtdxml/common/verif_on.go
@@ -17,14 +17,15 @@ const (
 
 // verifTable holds two bits for each code point: answered, and the answer.
 type verifTable struct {
-	first *uint32
-	bits  [verifChars / 16]uint32
+	arr  []uint32
+	bits [verifChars / 16]uint32
 }
 
 var (
 	verifMutex sync.Mutex
 	verifX     atomic.Value // *XmlChar
 	verifMemo  atomic.Value // []*verifTable
+	verifOff   int32
 )
 
 func verifShared() *XmlChar {
@@ -43,7 +44,7 @@ func verifShare(x *XmlChar) {
 func verifFind(arr []uint32) *verifTable {
 	tables, _ := verifMemo.Load().([]*verifTable)
 	for _, t := range tables {
-		if t.first == &arr[0] {
+		if &t.arr[0] == &arr[0] {
 			return t
 		}
 	}
@@ -66,12 +67,41 @@ func verifTableOf(arr []uint32, ch uint32) *verifTable {
 	if len(tables) >= verifTables {
 		return nil
 	}
-	t := &verifTable{first: &arr[0]}
+	t := &verifTable{arr: arr}
 	verifMemo.Store(append(append([]*verifTable{}, tables...), t))
 	return t
 }
 
+// VerifMemory turns remembering on or off.
+func VerifMemory(on bool) {
+	v := int32(1)
+	if on {
+		v = 0
+	}
+	atomic.StoreInt32(&verifOff, v)
+}
+
+// VerifIndex answers all questions not asked so far about the tables used so
+// far by looking the code points up in them.
+func VerifIndex() {
+	tables, _ := verifMemo.Load().([]*verifTable)
+	for _, t := range tables {
+		in := make(map[uint32]bool, len(t.arr))
+		for _, ch := range t.arr {
+			in[ch] = true
+		}
+		for ch := uint32(0); ch < verifChars; ch++ {
+			if _, known := verifKnown(t.arr, ch); !known {
+				verifRemember(t.arr, ch, in[ch])
+			}
+		}
+	}
+}
+
 func verifKnown(arr []uint32, ch uint32) (bool, bool) {
+	if atomic.LoadInt32(&verifOff) != 0 {
+		return false, false
+	}
 	t := verifTableOf(arr, ch)
 	if t == nil {
 		return false, false
@@ -81,6 +111,9 @@ func verifKnown(arr []uint32, ch uint32) (bool, bool) {
 }
 
 func verifRemember(arr []uint32, ch uint32, found bool) {
+	if atomic.LoadInt32(&verifOff) != 0 {
+		return
+	}
 	t := verifTableOf(arr, ch)
 	if t == nil {
 		return
-- 
2.43.0


From 7e0249574d1d97e8f942b5c3e6cf3b8583677568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:21 +0000
Subject: [PATCH 44/44] fix: Parse refuses to run again instead of panicking
 behind the document

---
 vtdxml/parser/parse.go      | 7 ++++++-
 vtdxml/parser/vtd_parser.go | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index d9d8b1c..50bb96b 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -9,8 +9,13 @@ import (
 
 // Parse function generates VTD tokens and location cache info.
 // If namespace awareness is set to true, VTDGen conforms to XML
-// namespace 1.0 spec
+// namespace 1.0 spec. A parser parses its document once.
 func (p *VtdParser) Parse() error {
+	if p.parsed {
+		return erroring.NewInternalError("the document has been parsed already", nil)
+	}
+	p.parsed = true
+
 	if err := p.decideEncoding(); err != nil {
 		return err
 	}
diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index bbea421..7878912 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -49,6 +49,7 @@ type VtdParser struct {
 	singleByteEncoding, bomDetected, mustUtf8, shallowDepth, helper, ws bool
 	isXml                                                               bool
 	bufferReuse                                                         bool
+	parsed                                                              bool
 	encoding                                                            common.FormatEncoding
 	xmlChar                                                             *common.XmlChar
 	vtdBuffer, l1Buffer, l2Buffer, l3Buffer, l4Buffer, l5Buffer         buffer.LongBuffer
-- 
2.43.0

