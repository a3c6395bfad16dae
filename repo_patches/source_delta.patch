From 147be565bb5edd6cbc1cf8869fca0c7ffc18791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 01/66] fix: report an out of bounds error for MinInt64 in
 varint64, and size it correctly in varint

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..9e658ce 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -80,6 +80,14 @@ func writeVarInt(w zserio.Writer, v int64, maxBytes int) error {
 func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
+	if v == MinInt64 {
+		// The absolute value does not fit into an int64. Only varint (9 bytes)
+		// can store this value, for which it uses the encoding of "minus 0".
+		if maxBytes < 9 {
+			return 0, ErrOutOfBounds
+		}
+		return 8, nil
+	}
 	if v < 0 {
 		v = -v
 	}
-- 
2.43.0


From 96e372b8f9679e0c70efdec5ab15569d709638e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 02/66] fix: use the right maximum length in the bit sizes of
 varint, varuint and varuint16 array elements

---
 ztype/array_traits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..84e6f4b 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -290,7 +290,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -474,7 +474,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -609,7 +609,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
-- 
2.43.0


From c36c597ce645b7697cfc6c7676f8f4cfe1b1660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 03/66] fix: length prefixes are varsize, not varint32, when
 sizing arrays and strings

---
 ztype/array.go        |  4 ++--
 ztype/array_traits.go | 10 ++++------
 ztype/object_array.go |  4 ++--
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..90da332 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -42,7 +42,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -74,7 +74,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 84e6f4b..d414be7 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -857,15 +857,13 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
+	// the total size of a string is 8 bits for each (UTF-8) character, and a
+	// varsize type for the number of characters
+	bitSize, err := BitSizeOfString(element)
 	if err != nil {
 		return 0
 	}
-
-	// the total size of a string is 8 bits for each (UTF-8) character, and a
-	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..54603de 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -29,7 +29,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -64,7 +64,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From c1c452e402f2a780e9bd1afcba88f8340772c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 04/66] fix: only count alignment between constant size array
 elements if there are offsets

---
 ztype/array.go        | 2 +-
 ztype/object_array.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index 90da332..000da57 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -51,7 +51,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 54603de..ba29648 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -41,7 +41,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
-- 
2.43.0


From 03c2b835169ecd023350137ffd8c997b1244c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 05/66] fix: refuse to write bytes and extern values whose
 buffer does not match their size

---
 ztype/bytes_encode.go  | 13 ++++++++++++-
 ztype/extern_encode.go | 16 +++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..d217553 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -1,9 +1,20 @@
 package ztype
 
-import zserio "github.com/woven-planet/go-zserio"
+import (
+	"errors"
+
+	zserio "github.com/woven-planet/go-zserio"
+)
+
+// ErrBufferSizeMismatch is returned when the buffer of a bytes or extern value
+// is missing, or does not have the size that the value specifies.
+var ErrBufferSizeMismatch = errors.New("buffer does not match the specified size")
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b == nil || b.ByteSize != uint64(len(b.Buffer)) {
+		return ErrBufferSizeMismatch
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..0660476 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -4,20 +4,30 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if e == nil {
+		return ErrBufferSizeMismatch
+	}
+	numOfFullBytes := e.BitSize / 8
+	remainingBits := uint8(e.BitSize % 8)
+	neededBytes := numOfFullBytes
+	if remainingBits != 0 {
+		neededBytes++
+	}
+	if neededBytes > uint64(len(e.Buffer)) {
+		return ErrBufferSizeMismatch
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
 
 	// write full bytes
-	numOfFullBytes := e.BitSize / 8
-	remainingBits := uint8(e.BitSize % 8)
 	if _, err := w.Write(e.Buffer[0:numOfFullBytes]); err != nil {
 		return err
 	}
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
-- 
2.43.0


From 8d1fbaa90205d51ee600b8c94afa21c6dca3bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 06/66] fix: count the length prefix in the bit size of bytes
 and extern values

---
 .../generator/templates/builtin_bitsizeof.go.tmpl   |  4 ++--
 ztype/array_traits.go                               |  6 ++++--
 ztype/bytes_encode.go                               | 13 +++++++++++++
 ztype/extern_encode.go                              | 13 +++++++++++++
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index d414be7..8a2dd7a 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -907,7 +907,8 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -951,7 +952,8 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index d217553..6f244e8 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -24,3 +24,16 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes value.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	if b == nil {
+		return 0, ErrBufferSizeMismatch
+	}
+	// the number of bytes is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(b.ByteSize)*8, nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 0660476..8bcbc94 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -36,3 +36,16 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern value.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	if e == nil {
+		return 0, ErrBufferSizeMismatch
+	}
+	// the number of bits is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From 2560844f318366bcc60dbae4eec15cb6f6e0e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 07/66] fix: report errors that occur while writing array
 elements

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..11ab38b 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..b140487 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err := packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From e7ecae8a6a2e16d01d0899af414b68b8113a8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 08/66] fix: report errors that occur while reading a delta
 packing descriptor

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From f07d444302aeb8f87e8e4afce9c06e3d84a6d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 09/66] fix: do not share bit field array traits between
 goroutines and element types

---
 ztype/array_traits.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 8a2dd7a..041772f 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,12 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From ff848923aef0edefe4591e1ba190c5e93ee8c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 10/66] fix: calculate the deltas of signed values that cross
 zero with their sign

---
 ztype/delta_context.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..96254b1 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -2,6 +2,7 @@ package ztype
 
 import (
 	"math/bits"
+	"reflect"
 
 	zserio "github.com/woven-planet/go-zserio"
 )
@@ -34,13 +35,28 @@ func arrayTraitsBitsizeOf[T any](arrayTraits IArrayTraits[T], bitPosition int, e
 	return arrayTraits.BitSizeOf(element, bitPosition)
 }
 
-func absDiff(lhs, rhs uint64) uint64 {
-	if lhs > rhs {
+// absDiff returns the absolute difference of two values. Signed values have to
+// be compared as such: the difference between 1 and -1 is 2.
+func absDiff(lhs, rhs uint64, signed bool) uint64 {
+	isGreater := lhs > rhs
+	if signed {
+		isGreater = int64(lhs) > int64(rhs)
+	}
+	if isGreater {
 		return lhs - rhs
 	}
 	return rhs - lhs
 }
 
+// isSignedInteger returns true if an element is of a signed integer type.
+func isSignedInteger[T any](element T) bool {
+	switch any(element).(type) {
+	case int8, int16, int32, int64, int:
+		return true
+	}
+	return reflect.ValueOf(element).CanInt()
+}
+
 // Init initializes a delta context array, and calculates the needed space per element in the final array.
 func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 	context.numElements++
@@ -53,7 +69,7 @@ func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 		context.isPacked = true
 		// Calculate the delta to the previous value, and calculate how many
 		// bits are needed to store the delta.
-		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement)
+		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement, isSignedInteger(element))
 		maxBitNumber := bits.Len64(delta)
 		if maxBitNumber > context.maxBitNumber {
 			context.maxBitNumber = maxBitNumber
-- 
2.43.0


From 3b2c3da5535406c04c69e043717a1773f9be7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 11/66] fix: align streams to any boundary without overflowing
 or dividing by zero

---
 zstream/reader.go      | 15 +++++++++++----
 zstream/writer.go      | 10 +++++++---
 ztype/bit_alignment.go |  3 +++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..530421d 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -54,15 +54,22 @@ func (r *BitReader) Align(boundary uint8) (int64, error) {
 		return r.reader.BitsCount, nil
 	}
 
-	_, err := r.ReadBits(d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	// no more than 64 bits can be read at once
+	for d > 0 {
+		n := min(d, 64)
+		if _, err := r.ReadBits(n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
-	return r.reader.BitsCount, err
+	return r.reader.BitsCount, nil
 }
 
 func discard(count int64, boundary uint8) uint8 {
+	if boundary == 0 {
+		return 0
+	}
 	if misaligned := uint8(count % int64(boundary)); misaligned != 0 {
 		return boundary - misaligned
 	}
diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..ff5048c 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,9 +73,13 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
-	err := w.WriteBits(0, d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	// no more than 64 bits can be written at once
+	for d > 0 {
+		n := min(d, 64)
+		if err := w.WriteBits(0, n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
 	return w.writer.BitsCount, nil
diff --git a/ztype/bit_alignment.go b/ztype/bit_alignment.go
index 4e2522b..f3050f8 100644
--- a/ztype/bit_alignment.go
+++ b/ztype/bit_alignment.go
@@ -3,6 +3,9 @@ package ztype
 // CountAlignBits calculates how many bits would need to be spend to align the
 // current bitPosition to the next boundary.
 func CountAlignBits(bitPosition int, boundary uint8) int {
+	if boundary == 0 {
+		return 0
+	}
 	misaligned := (bitPosition % int(boundary))
 	if misaligned != 0 {
 		return int(boundary) - misaligned
-- 
2.43.0


From 7838d65d13b62ca44ffcb516266154ef8e49d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 12/66] fix: return an error for bit fields with more than 64
 bits

---
 ztype/bits_decode.go | 5 ++++-
 ztype/bits_encode.go | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..eb5f6e2 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrInvalidBitCount
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrInvalidBitCount
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..61ee24e 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrInvalidBitCount is returned when you try to read or write a bit field type
+// with more bits than supported.
+var ErrInvalidBitCount = errors.New("a bit field can not have more than 64 bits")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrInvalidBitCount
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +28,7 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrInvalidBitCount
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From 702058b9cf9a45c6191efae055ab7b2094bd5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 13/66] fix: check the range and width of bit field array
 elements

---
 ztype/array_traits.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 041772f..cde7028 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -692,12 +692,12 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -753,12 +753,12 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(fillUpperBits(value, trait.NumBits)), err
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
-- 
2.43.0


From 7f87139496167ba17897da9d127b60e0f1303d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 14/66] fix: do not allocate memory for elements that a stream
 only claims to have

---
 ztype/array_decode.go        | 11 ++++++++++-
 ztype/bytes_decode.go        |  9 +--------
 ztype/extern_decode.go       | 10 +---------
 ztype/object_array_decode.go |  8 +++++++-
 ztype/string_decode.go       | 26 ++++++++++++++++++++++++--
 5 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..98c8b16 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -1,9 +1,14 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// ErrNegativeArraySize is returned if the size of a fixed size array is negative.
+var ErrNegativeArraySize = errors.New("the size of an array must not be negative")
+
 // UnmarshalZserio reads an array from a bit reader, in either packed or unpacked configuration.
 func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 	arraySize := array.FixedSize
@@ -16,7 +21,11 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrNegativeArraySize
+	}
+
+	array.RawArray = make([]T, 0, min(arraySize, maxPreallocation))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..b455e2e 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,9 +1,6 @@
 package ztype
 
 import (
-	"errors"
-	"io"
-
 	zserio "github.com/woven-planet/go-zserio"
 )
 
@@ -16,13 +13,9 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readFull(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..aed34d0 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,9 +1,6 @@
 package ztype
 
 import (
-	"errors"
-	"io"
-
 	zserio "github.com/woven-planet/go-zserio"
 )
 
@@ -15,17 +12,12 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readFull(r, e.BitSize/8)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..011364e 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,11 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrNegativeArraySize
+	}
+
+	result := make([]T, 0, min(arraySize, maxPreallocation))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +36,8 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			var empty T
+			result = append(result, empty)
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..9198ddd 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -6,14 +6,36 @@ import (
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// maxPreallocation is the number of elements or bytes for which memory is
+// allocated before any of them is read. Anything that goes beyond that grows
+// with the data that is really there: the size in a byte stream may be wrong.
+const maxPreallocation = 4096
+
+// readFull reads exactly size bytes.
+func readFull(r io.Reader, size uint64) ([]byte, error) {
+	buf := make([]byte, 0, min(size, maxPreallocation))
+	for uint64(len(buf)) < size {
+		n := int(min(size-uint64(len(buf)), uint64(max(len(buf), maxPreallocation))))
+		start := len(buf)
+		buf = append(buf, make([]byte, n)...)
+		if _, err := io.ReadFull(r, buf[start:]); err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, err
+		}
+	}
+	return buf, nil
+}
+
 // ReadString reads a string from the bitstream.
 func ReadString(r zserio.Reader) (string, error) {
 	size, err := ReadVarsize(r)
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readFull(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From b3785aa51bee77daba369a31f37972663aa3ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 15/66] fix: align an optional field after its presence flag,
 and only if it is present

---
 internal/generator/templates/bitsizeof.go.tmpl        |  8 ++++----
 internal/generator/templates/decode.go.tmpl           | 11 ++++++-----
 internal/generator/templates/encode.go.tmpl           | 10 +++++-----
 .../templates/packing_context_bitsize.go.tmpl         |  8 ++++----
 4 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..b9f8960 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -19,15 +19,15 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $name "field" $field "native" $native }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..6dde2f3 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -24,11 +24,6 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err = r.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 
 {{- $assign_str_lvalue := printf "v.%s" $field.Name }}
 {{- $assign_str_rvalue := $field_name }}
@@ -46,6 +41,12 @@
     {{- $assign_str_rvalue = "value" }}
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    if _, err = r.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
+
 {{- if and (not $native.IsMarshaler) (not $field.Array) }}
     {{- if or (gt $native.Type.Bits 0) $native.Type.LengthExpression }}
     if tempValue, err := ztype.Read{{if eq $native.Type.Name "int"}}Signed{{else}}Unsigned{{end}}Bits(r, {{ $bit_size }}); err == nil {
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..0d74323 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -24,17 +24,17 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err := w.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 {{- if $field.IsOptional}}
     if err = ztype.WriteBool(w, v.{{ $field.Name }} != nil); err != nil {
         return err
     }
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err := w.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..c910d7c 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,15 +18,15 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
 
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
+
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
-- 
2.43.0


From aca7e87b5f184b26d3ecbf2ce8d169674fd44889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 16/66] fix: size arrays the way they are written, and only
 pack arrays of packable types

---
 internal/generator/funcs.go                          |  9 +++++++++
 internal/generator/templates.go                      |  1 +
 internal/generator/templates/array_init.go.tmpl      |  2 +-
 internal/generator/templates/bitsizeof.go.tmpl       |  8 +++++++-
 .../generator/templates/builtin_bitsizeof.go.tmpl    |  4 ++--
 .../templates/packing_context_bitsize.go.tmpl        | 12 ++++++++++--
 .../templates/packing_context_decode.go.tmpl         |  2 +-
 .../templates/packing_context_encode.go.tmpl         |  2 +-
 ztype/array.go                                       | 10 ++++++++++
 ztype/object_array.go                                | 11 +++++++++++
 10 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..b56fc3f 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -13,6 +13,15 @@ func IsDeltaPackable(scope ast.Scope, typ *ast.TypeReference) (bool, error) {
 	return scope.IsDeltaPackable(typ)
 }
 
+// IsPackable returns if packing an array makes a difference for elements of a
+// type: these are numeric types, and compound types that may contain some.
+func IsPackable(scope ast.Scope, typ *ast.OriginalTypeReference) (bool, error) {
+	if typ.IsMarshaler {
+		return true, nil
+	}
+	return scope.IsDeltaPackable(typ.Type)
+}
+
 func GoType(scope ast.Scope, typ *ast.TypeReference) (string, error) {
 	return scope.GoType(typ)
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 0d70aae..295a4f6 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -16,6 +16,7 @@ func init() {
 	var err error
 	funcs := map[string]any{
 		"isDeltaPackable":   IsDeltaPackable,
+		"isPackable":        IsPackable,
 		"goType":            GoType,
 		"goPackageName":     GoPackageName,
 		"goGetAllImports":   GoGetAllImports,
diff --git a/internal/generator/templates/array_init.go.tmpl b/internal/generator/templates/array_init.go.tmpl
index c8406a6..0eff531 100644
--- a/internal/generator/templates/array_init.go.tmpl
+++ b/internal/generator/templates/array_init.go.tmpl
@@ -12,7 +12,7 @@
     {{ $field.Name }}ArrayProperties.ArrayTraits = *{{ template "instantiate_array_traits.go.tmpl" dict "pkg" $scope "type" $native.Type }}
 {{- end }}
 
-{{- if $field.Array.IsPacked }}
+{{- if and $field.Array.IsPacked (isPackable $scope $native) }}
     {{ $field.Name }}ArrayProperties.IsPacked = true
 {{- end }}
 {{- if $field.Array.Length }}
diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index b9f8960..0a0fb99 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -41,11 +41,17 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
 {{- end }}
-{{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $name "native" $native "isarray" $field.Array "isoptional" $field.IsOptional }}
+{{ $ispacked := false }}
+{{- if $field.Array }}
+    {{- $ispacked = and $field.Array.IsPacked (isPackable $scope $native) }}
+{{- end }}
+{{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $name "native" $native "isarray" $field.Array "isoptional" $field.IsOptional "ispacked" $ispacked }}
 
 {{- if $field.IsOptional}}
     }
diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index d45c3ca..7fbdfd3 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -46,9 +46,9 @@
 {{- else }}
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if and ( $isarray ) ( eq $traits "ztype.ObjectArrayTraits" )}}
-        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
+        if delta, err := {{ $name }}ArrayProperties.ZserioBitSize{{ if .ispacked }}Packed{{ end }}({{ if $isoptional }}*{{ end }}v.{{ $name }}, endBitPosition); err != nil {
     {{- else }}
-        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize(endBitPosition); err != nil {
+        if delta, err := {{ $name }}{{- if $isarray }}ArrayProperties{{- end }}.ZserioBitSize{{ if .ispacked }}Packed{{ end }}(endBitPosition); err != nil {
     {{- end }}
             return 0, err
         } else {
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index c910d7c..881b8fc 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,6 +18,9 @@
     {{- end }}
 {{- end }}
 
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
+{{- end }}
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
@@ -33,7 +36,7 @@
     
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if eq $traits "ztype.ObjectArrayTraits" }}
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize{{ if isPackable $scope $native }}Packed{{ end }}({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
     {{- else }}
         {{- if $native.IsMarshaler }}
         for index := range {{ $field_name }} {
@@ -43,9 +46,11 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize{{ if isPackable $scope $native }}Packed{{ end }}(endBitPosition); err != nil {
     {{- end }}
         return 0, err
     } else {
@@ -79,3 +84,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..1fec39d 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -55,7 +55,7 @@
 {{- template "decode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $assign_str_lvalue "native" $native }}
 
 {{- if $field.Array }}
-    {{- if not $field.Array.IsPacked }}
+    {{- if and (not $field.Array.IsPacked) (isPackable $scope $native) }}
         // This array is implicitly packed, because its parent object is packed
         {{ $field.Name }}ArrayProperties.IsPacked = true
     {{- end }}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..9b497e2 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -49,7 +49,7 @@
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
-    {{- if not $field.Array.IsPacked }}
+    {{- if and (not $field.Array.IsPacked) (isPackable $scope $native) }}
         // This array is implicitly packed, because its parent object is packed
         {{ $field.Name }}ArrayProperties.IsPacked = true
     {{- end }}
diff --git a/ztype/array.go b/ztype/array.go
index 000da57..75dc27c 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -81,7 +81,17 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 		endBitPosition += delta
 	}
 	if size > 0 {
+		var err error
 		packedTraits := array.ArrayTraits.PackedTraits()
+		array.PackedContext, err = packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err := packedTraits.InitContext(array.PackedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
diff --git a/ztype/object_array.go b/ztype/object_array.go
index ba29648..32d39df 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -74,6 +74,17 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
 
+		var err error
+		array.PackedContext, err = packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err := packedTraits.InitContext(array.PackedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
+
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
-- 
2.43.0


From 107fffb4bf61ffa0e34c05c4d8af3d2dfb53c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 17/66] fix: report errors while sizing the elements of object
 arrays

---
 ztype/object_array.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ztype/object_array.go b/ztype/object_array.go
index 32d39df..e5d2b7b 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -53,7 +53,11 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			endBitPosition += arrayTraits.BitSizeOf(&elements[i], endBitPosition)
+			delta, err := PT(&elements[i]).ZserioBitSize(endBitPosition)
+			if err != nil {
+				return 0, err
+			}
+			endBitPosition += delta
 		}
 	}
 	return endBitPosition - bitPosition, nil
-- 
2.43.0


From 0811e6d1cea291833a6563f4b0859e3b5a42d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 18/66] fix: write the index of a union field as its choice
 tag, and refuse tags without a field

---
 internal/generator/templates/union.go.tmpl | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..7efc8fe 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -33,7 +33,11 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
+  }
+  // the choice tag is the index of the field, beginning with 0
+  err := ztype.WriteVarsize(w, uint64(v.UnionChoice) - 1)
   if err != nil {
     return err
   }
@@ -51,7 +55,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if unionChoice >= {{ len $union.Fields }} {
+      return fmt.Errorf("{{ $union.Name }} has no field for choice tag %d", unionChoice)
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice) + 1
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -65,8 +72,11 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
+  }
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice) - 1, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
-- 
2.43.0


From 6b09fbfbd2da42573bdf8cfa12cb776746fead93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 19/66] fix: write and read the content of unions in packed
 arrays

---
 internal/generator/templates/union.go.tmpl | 75 ++++++++++++++++++++--
 1 file changed, 70 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 7efc8fe..7e59bc6 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -91,6 +91,8 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the first child is used for the choice tag
+  contextNode.AddChild(ztype.CreatePackingContextNode[uint64]())
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -98,20 +100,64 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 }
 
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
+    if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+      return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
+    }
     childrenNodes := contextNode.GetChildren()
-    _ = childrenNodes // to avoid "declared but not used" warning
+    choiceTagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+      return errors.New("unknown context type")
+    }
+    choiceTagContext.Init(ztype.ArrayTraits.VarSize, uint64(v.UnionChoice) - 1)
 {{- range $index, $field := $union.Fields }}
-  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+  {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-  return nil
+    childrenNodes := contextNode.GetChildren()
+    choiceTagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+    if !ok {
+      return errors.New("unknown context type")
+    }
+    unionChoice, err := choiceTagContext.Read(ztype.ArrayTraits.VarSize, r)
+    if err != nil {
+      return err
+    }
+    if unionChoice >= {{ len $union.Fields }} {
+      return fmt.Errorf("{{ $union.Name }} has no field for choice tag %d", unionChoice)
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice) + 1
+{{- range $index, $field := $union.Fields }}
+   if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+   }
+{{- end}}
+    return nil
 }
 
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  choiceTagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  err := choiceTagContext.Write(ztype.ArrayTraits.VarSize, w, uint64(v.UnionChoice) - 1)
+  if err != nil {
+    return err
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end}}
   return nil
 }
 
@@ -120,5 +166,24 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
+  }
+  childrenNodes := contextNode.GetChildren()
+  choiceTagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return 0, errors.New("invalid packing context")
+  }
+  endBitPosition := bitPosition
+  if delta, err := choiceTagContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, uint64(v.UnionChoice) - 1); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" (add $index 1) }}
+  }
+{{- end }}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From c9c89cedf6cf53bf04b0ba801d9de59f8d2fd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 20/66] fix: handle all labels of a choice, cases without a
 field, and selectors without a case

---
 internal/generator/funcs.go                 | 14 +++++
 internal/generator/templates.go             |  1 +
 internal/generator/templates/choice.go.tmpl | 58 +++++++++++++++------
 3 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index b56fc3f..4ba90b0 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -3,6 +3,7 @@ package generator
 // This file contains helper functions that can be called from templates.
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -30,6 +31,19 @@ func GoArrayTraits(scope ast.Scope, typ *ast.TypeReference) (string, error) {
 	return scope.GoArrayTraits(typ)
 }
 
+// GoChoiceCase returns the list of values for which a case of a choice is used.
+func GoChoiceCase(choiceCase *ast.ChoiceCase) string {
+	var values []string
+	for _, condition := range choiceCase.Conditions {
+		if condition.Condition.ResultType == ast.ExpressionTypeBool {
+			values = append(values, fmt.Sprintf("%t", condition.Condition.ResultBoolValue))
+		} else {
+			values = append(values, fmt.Sprintf("%d", condition.Condition.ResultIntValue))
+		}
+	}
+	return strings.Join(values, ", ")
+}
+
 func GoPackageName(pkg string) string {
 	p := strings.Split(pkg, ".")
 	return strings.ToLower(p[len(p)-1])
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 295a4f6..cc1e051 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -17,6 +17,7 @@ func init() {
 	funcs := map[string]any{
 		"isDeltaPackable":   IsDeltaPackable,
 		"isPackable":        IsPackable,
+		"goChoiceCase":      GoChoiceCase,
 		"goType":            GoType,
 		"goPackageName":     GoPackageName,
 		"goGetAllImports":   GoGetAllImports,
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..b1e4029 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -36,10 +36,10 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceCase $case }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -48,6 +48,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   default:
    {{- template "encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -57,10 +61,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceCase $case }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -69,6 +73,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   default:
    {{- template "decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
   {{- end }}
+{{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   _ = err // to avoid "declared but not used" warning
@@ -78,16 +86,20 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceCase $case }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
 {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
   default:
    {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "isarray" false}}
+{{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return 0, fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
 {{- end }}
   }
   return endBitPosition - bitPosition, nil
@@ -109,19 +121,23 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 {{- if $choice.Cases }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceCase $case }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
+{{- end }}
   }
 {{- end }}
   return nil
@@ -132,11 +148,11 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceCase $case }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -145,6 +161,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     default:
     {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
+{{- end }}
   }
     _ = err // to avoid "declared but not used" warning
 {{- end }}
@@ -156,11 +176,11 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceCase $case }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -169,6 +189,10 @@ func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingConte
     default:
     {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
+{{- end }}
   }
     _ = err // to avoid "declared but not used" warning
 {{- end }}
@@ -184,11 +208,11 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
 {{- if $choice.Cases }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch ({{ goExpression $scope $expr }}) {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceCase $case }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -197,6 +221,10 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
     default:
     {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
+{{- if not $choice.DefaultCase }}
+  default:
+    return 0, fmt.Errorf("{{ $choice.Name }} has no case for selector %v", {{ goExpression $scope $expr }})
+{{- end }}
   }
 {{- end }}
   return endBitPosition - bitPosition, nil
-- 
2.43.0


From a9fef9c774445e7d25b1f0ed210677ce2d32e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 21/66] fix: resolve and evaluate the default case, functions
 and any selector of choices, and the functions of unions

---
 internal/ast/choice.go                      | 53 ++++++++++++++++---
 internal/ast/union.go                       |  5 ++
 internal/generator/templates/choice.go.tmpl |  2 +
 internal/model/transform.go                 | 56 +++++++++++++++++++++
 4 files changed, 109 insertions(+), 7 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..7c9fae7 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,13 +43,44 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
 
+// selectorType returns the type of the selector expression, if it is an enum
+// or a bitmask.
+func (choice *Choice) selectorType() (*TypeReference, error) {
+	selector := choice.SelectorExpression
+	for selector.Type == parser.ZserioParserLPAREN {
+		selector = selector.Operand1
+	}
+	if selector.ResultSymbol != nil {
+		switch n := selector.ResultSymbol.Symbol.(type) {
+		case *Parameter:
+			return n.Type, nil
+		case *Field:
+			return n.Type, nil
+		case *Function:
+			return n.ReturnType, nil
+		}
+	}
+	return nil, errors.New("unable to find the type of the choice selector")
+}
+
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
 func (choice *Choice) fullySpecifyChoiceConditions() error {
+	resultType := choice.SelectorExpression.ResultType
+	if resultType != ExpressionTypeEnum && resultType != ExpressionTypeBitmask {
+		// any name in a choice case is the name of a constant
+		return nil
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
@@ -60,15 +91,15 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			if condition.Condition.Type == parser.ZserioParserID {
 				// convert the selector from the parameter type to the underlying
 				// actual type (e.g. enum, bitfield)
-				parameterType, ok := choice.SelectorExpression.ResultSymbol.Symbol.(*Parameter)
-				if !ok {
-					return errors.New("choice selector type is not a parameter")
+				selectorType, err := choice.selectorType()
+				if err != nil {
+					return err
 				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
 						Type: parser.ZserioParserID,
-						Text: parameterType.Type.Name,
+						Text: selectorType.Name,
 					},
 					Operand2: condition.Condition,
 				}
@@ -117,8 +148,16 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
+	}
+
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	return nil
 }
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index b1e4029..3888c88 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -83,6 +83,8 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
   return nil
 }
 
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
+
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..868683c 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -111,6 +111,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -725,6 +726,42 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				if field.Type.Package != "" || !templateParams[field.Type.Name] {
+					if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+						return TypeError{
+							TypeReference: ast.TypeReference{
+								IsBuiltin: false,
+								Package:   pkg.Name,
+								Name:      choice.Name,
+							},
+							Field: field.Name,
+							Err:   err,
+						}
+					}
+				}
+			}
+
+			for _, function := range choice.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
@@ -770,6 +807,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, function := range union.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
-- 
2.43.0


From 5c30af2d0841a61727f5ad2493ec1edaeae6abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 22/66] fix: evaluate expressions on all types, packages and
 literals, and report the ones that have no value

---
 internal/ast/choice.go     |   5 +-
 internal/ast/expression.go | 372 ++++++++++++++++++++++++++-----------
 2 files changed, 266 insertions(+), 111 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 7c9fae7..099ef3f 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -101,7 +101,10 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 						Type: parser.ZserioParserID,
 						Text: selectorType.Name,
 					},
-					Operand2: condition.Condition,
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
+					},
 				}
 				condition.Condition = dotExpression
 			}
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..d96cb46 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 	"strconv"
 	"strings"
@@ -113,19 +114,21 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
-		switch typeRef.Name {
+		// Use the original type, the reference might be a subtype of it.
+		builtinType := originalType.Type
+		switch builtinType.Name {
 		case "bool":
-			return ExpressionTypeBool, typeRef, nil
+			return ExpressionTypeBool, builtinType, nil
 		case "string":
-			return ExpressionTypeString, typeRef, nil
+			return ExpressionTypeString, builtinType, nil
 		case "float16":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, builtinType, nil
 		case "float32":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, builtinType, nil
 		case "float64":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, builtinType, nil
 		default:
-			return ExpressionTypeInteger, typeRef, nil
+			return ExpressionTypeInteger, builtinType, nil
 		}
 	}
 	symbolScope, err := scope.GetImportedScope(typeRef.Package)
@@ -182,14 +185,27 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	}
 
 	// Some symbols, such as consts, can be directly resolved.
+	// They are evaluated in the package that defines them.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		constScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.ValueExpression.Evaluate(constScope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		enumScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := enumItem.enum.Evaluate(enumScope); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
@@ -206,8 +222,10 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	if expr.Operand1 == nil {
 		return errors.New("valueof operator needs one operand")
 	}
+	// enum items are already evaluated to their integer value
 	if expr.Operand1.ResultType != ExpressionTypeEnum &&
-		expr.Operand1.ResultType != ExpressionTypeBitmask {
+		expr.Operand1.ResultType != ExpressionTypeBitmask &&
+		expr.Operand1.ResultType != ExpressionTypeInteger {
 		return errors.New("valueof operator needs an expression or bitmask type")
 	}
 	expr.ResultType = ExpressionTypeInteger
@@ -224,7 +242,12 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// note that this must be aligned with ztype.NumBits
+	value := uint64(expr.Operand1.ResultIntValue)
+	if value > 1 {
+		value--
+	}
+	expr.ResultIntValue = int64(bits.Len64(value))
 	return nil
 }
 
@@ -236,58 +259,37 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 		typeReference = f.Type
 	} else if p, ok := expr.Operand1.ResultSymbol.Symbol.(*Parameter); ok {
 		typeReference = p.Type
+	} else if f, ok := expr.Operand1.ResultSymbol.Symbol.(*Function); ok {
+		typeReference = f.ReturnType
 	} else {
 		return errors.New("unknown compound dot expression")
 	}
 
 	// look up through all levels of indirections (subtypes)
-	var compoundSymbol *SymbolReference
-	newScope := scope
-	var err error
-	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
-		if err != nil {
-			return err
-		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
-		if err != nil {
-			return err
-		}
-		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
-			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
-			continue
-		}
-		break
+	originalType, err := scope.GetOriginalType(typeReference)
+	if err != nil {
+		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	if originalType.Type.IsBuiltin {
+		return errors.New("compound type is not supported")
+	}
+	compoundScope, err := scope.GetImportedScope(originalType.Type.Package)
+	if err != nil {
 		return err
 	}
-
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
+	symbol, err := compoundScope.GetCompoundType(originalType.Type.Name, expr.Operand2.Text)
+	if err != nil {
 		return err
 	}
-	return errors.New("compound type is not supported")
+	expr.ResultSymbol = symbol
+	expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, compoundScope)
+	return err
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
+	if expr.Operand1.ResultSymbol == nil {
+		return errors.New("function expression expected")
+	}
 	function, ok := expr.Operand1.ResultSymbol.Symbol.(*Function)
 	if !ok {
 		return errors.New("function expression expected")
@@ -314,20 +316,24 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	previousScope := functionEvaluationScope.LocalSymbols.CurrentCompoundScope
 	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = &typeRef.Type.Name
 	err = function.Result.Evaluate(functionEvaluationScope)
+	// Restore the previous scope
+	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
 	if err != nil {
 		return err
 	}
+	// The value of a function is of its return type. Functions that return a
+	// compound are evaluated to the type of the result.
 	copyExpressionResult(function.Result, expr)
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
-
-	// Restore the previous scope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
 	return nil
 }
 
 func getArrayField(expr *Expression) (*Field, error) {
+	if expr == nil || expr.ResultSymbol == nil {
+		return nil, errors.New("unexpected array type (field expected)")
+	}
 	field, ok := expr.ResultSymbol.Symbol.(*Field)
 	if !ok {
 		return nil, errors.New("unexpected array type (field expected)")
@@ -351,6 +357,12 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
+	// an element might be a compound whose fields are used
+	expr.ResultSymbol = &SymbolReference{
+		Symbol:  field.Type,
+		Name:    field.Type.Name,
+		Package: field.Type.Package,
+	}
 	return nil
 }
 
@@ -373,21 +385,34 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 	// In case the expression does not directly reference to actual enum/bitmask type,
 	// but references it using subtypes, we first need to resolve the actual type.
 	op1Symbol := expr.Operand1.ResultSymbol
+	if op1Symbol == nil {
+		return errors.New("dot expression must use a valid symbol")
+	}
+	if expr.Operand1.ResultType == ExpressionTypeCompound {
+		return expr.evaluateCompoundDotExpression(scope)
+	}
 	op1Symbol, err := scope.GetOriginalSymbol(op1Symbol)
 	if err != nil {
 		return err
 	}
+	symbolScope := scope
+	if op1Symbol.Package != "" {
+		if symbolScope, err = scope.GetImportedScope(op1Symbol.Package); err != nil {
+			return err
+		}
+	}
 
 	if expr.Operand1.ResultType == ExpressionTypeEnum {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
+					if enumItem.Expression == nil || enumItem.EvaluationState != EvaluationStateComplete {
+						if err := enum.Evaluate(symbolScope); err != nil {
 							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
 						}
 					}
 					copyExpressionResult(enumItem.Expression, expr)
+					expr.FullyResolved = true
 					return nil
 				}
 			}
@@ -396,14 +421,18 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					if bitmaskValue.Expression == nil || bitmaskValue.EvaluationState != EvaluationStateComplete {
+						if err := bitmask.Evaluate(symbolScope); err != nil {
+							return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+						}
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
+					expr.FullyResolved = true
 					return nil
 				}
 			}
 		}
-	} else if expr.Operand1.ResultType == ExpressionTypeCompound {
-		return expr.evaluateCompoundDotExpression(scope)
 	} else {
 		return errors.New("dot expression must use a valid symbol")
 	}
@@ -422,7 +451,7 @@ func (expr *Expression) evaluateIsSetOperator() error {
 		return errors.New("the second operand of the isset() operator must be a bitmask")
 	}
 	expr.ResultType = ExpressionTypeBool
-	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue != 0
+	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue == expr.Operand2.ResultIntValue
 	return nil
 }
 
@@ -431,11 +460,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	if expr.Operand1 == nil {
 		return errors.New("parenthesis needs an operand")
 	}
-	expr.ResultType = expr.Operand1.ResultType
-	expr.ResultIntValue = expr.Operand1.ResultIntValue
-	expr.ResultStringValue = expr.Operand1.ResultStringValue
-	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
-	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	copyExpressionResult(expr.Operand1, expr)
 	return nil
 }
 
@@ -456,6 +481,15 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		expr.ResultIntValue = expr.Operand1.ResultIntValue
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
+			if expr.FullyResolved {
+				// the negative value does not need to fit into the type of the operand
+				expr.NativeZserioType = nil
+			}
+		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
 		}
 	}
 	return nil
@@ -512,9 +546,23 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
-			expr.ResultIntValue = op1 / op2
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
+			if isUint64(expr.NativeZserioType) {
+				expr.ResultIntValue = int64(uint64(op1) / uint64(op2))
+			} else {
+				expr.ResultIntValue = op1 / op2
+			}
 		case parser.ZserioParserMODULO:
-			expr.ResultIntValue = op1 % op2
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
+			if isUint64(expr.NativeZserioType) {
+				expr.ResultIntValue = int64(uint64(op1) % uint64(op2))
+			} else {
+				expr.ResultIntValue = op1 % op2
+			}
 		default:
 			return errors.New("unexpected operation in integer arithmetic expression")
 		}
@@ -549,6 +597,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultFloatValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
+			if op2 == 0 {
+				return errors.New("division by zero")
+			}
 			expr.ResultFloatValue = op1 / op2
 		default:
 			return errors.New("unexpected operation in float arithmetic expression")
@@ -593,8 +644,20 @@ func (expr *Expression) evaluateLogicalExpression() error {
 	return nil
 }
 
+// floatValue returns the value of a float or integer expression.
+func (expr *Expression) floatValue() float64 {
+	if expr.ResultType == ExpressionTypeInteger {
+		return float64(expr.ResultIntValue)
+	}
+	return expr.ResultFloatValue
+}
+
 func (expr *Expression) evaluateComparisonExpression() error {
-	if expr.Operand1.ResultType != expr.Operand2.ResultType &&
+	// integers can be compared with floats
+	isFloatComparison := (expr.Operand1.ResultType == ExpressionTypeFloat &&
+		(expr.Operand2.ResultType == ExpressionTypeFloat || expr.Operand2.ResultType == ExpressionTypeInteger)) ||
+		(expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeFloat)
+	if expr.Operand1.ResultType != expr.Operand2.ResultType && !isFloatComparison &&
 		!(expr.Operand1.ResultType == ExpressionTypeEnum &&
 			expr.Operand2.ResultType == ExpressionTypeInteger) &&
 		!(expr.Operand2.ResultType == ExpressionTypeEnum &&
@@ -606,36 +669,53 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		return errors.New("comparison expression must have operands of the same type")
 	}
 	expr.ResultType = ExpressionTypeBool
-	if expr.Operand1.ResultType == ExpressionTypeInteger ||
-		expr.Operand1.ResultType == ExpressionTypeBitmask {
+	if !isFloatComparison && (expr.Operand1.ResultType == ExpressionTypeInteger ||
+		expr.Operand1.ResultType == ExpressionTypeBitmask) {
+		op1 := expr.Operand1.ResultIntValue
+		op2 := expr.Operand2.ResultIntValue
+		op1IsLarge := op1 < 0 && isUint64(expr.Operand1.NativeZserioType)
+		op2IsLarge := op2 < 0 && isUint64(expr.Operand2.NativeZserioType)
+		if op1IsLarge != op2IsLarge {
+			// only one of the values does not fit into an int64
+			op1, op2 = 0, 1
+			if op1IsLarge {
+				op1, op2 = 1, 0
+			}
+		}
 		switch expr.Type {
 		case parser.ZserioParserLT:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue < expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 < op2
 		case parser.ZserioParserLE:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue <= expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 <= op2
 		case parser.ZserioParserGT:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue > expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 > op2
 		case parser.ZserioParserGE:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue >= expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 >= op2
 		case parser.ZserioParserEQ:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue == expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 == op2
 		case parser.ZserioParserNE:
-			expr.ResultBoolValue = expr.Operand1.ResultIntValue != expr.Operand2.ResultIntValue
+			expr.ResultBoolValue = op1 != op2
 		default:
 			return errors.New("unexpected operand for integer expression")
 		}
-	} else if expr.Operand1.ResultType == ExpressionTypeFloat {
+	} else if isFloatComparison {
+		op1 := expr.Operand1.floatValue()
+		op2 := expr.Operand2.floatValue()
 		switch expr.Type {
 		case parser.ZserioParserLT:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue < expr.Operand2.ResultFloatValue
+			expr.ResultBoolValue = op1 < op2
 		case parser.ZserioParserLE:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue <= expr.Operand2.ResultFloatValue
+			expr.ResultBoolValue = op1 <= op2
 		case parser.ZserioParserGT:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue > expr.Operand2.ResultFloatValue
+			expr.ResultBoolValue = op1 > op2
 		case parser.ZserioParserGE:
-			expr.ResultBoolValue = expr.Operand1.ResultFloatValue >= expr.Operand2.ResultFloatValue
+			expr.ResultBoolValue = op1 >= op2
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = op1 == op2
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = op1 != op2
 		default:
-			return errors.New("equal/notequal operator not supported for float types")
+			return errors.New("unexpected operand for float expression")
 		}
 	} else if expr.Operand1.ResultType == ExpressionTypeString {
 		switch expr.Type {
@@ -646,6 +726,15 @@ func (expr *Expression) evaluateComparisonExpression() error {
 		default:
 			return errors.New("string types does not support greater / smaller comparisons")
 		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types does not support greater / smaller comparisons")
+		}
 	}
 	return nil
 }
@@ -656,17 +745,26 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	}
 
 	if expr.Operand1.ResultBoolValue {
-		expr.ResultType = expr.Operand2.ResultType
-		expr.ResultIntValue = expr.Operand2.ResultIntValue
-		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
-		expr.ResultStringValue = expr.Operand2.ResultStringValue
-		expr.NativeZserioType = expr.Operand2.NativeZserioType
+		copyExpressionResult(expr.Operand2, expr)
 	} else {
-		expr.ResultType = expr.Operand3.ResultType
-		expr.ResultIntValue = expr.Operand3.ResultIntValue
-		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
-		expr.ResultStringValue = expr.Operand3.ResultStringValue
-		expr.NativeZserioType = expr.Operand3.NativeZserioType
+		copyExpressionResult(expr.Operand3, expr)
+	}
+
+	// If the operands are of different numeric types, the result is of a type
+	// that fits both.
+	if expr.Operand2.ResultType != expr.Operand3.ResultType || expr.ResultType == ExpressionTypeInteger || expr.ResultType == ExpressionTypeFloat {
+		var err error
+		expr.ResultType, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand2, expr.Operand3)
+		if err != nil {
+			return err
+		}
+		if expr.ResultType == ExpressionTypeFloat {
+			if expr.Operand1.ResultBoolValue {
+				expr.ResultFloatValue = expr.Operand2.floatValue()
+			} else {
+				expr.ResultFloatValue = expr.Operand3.floatValue()
+			}
+		}
 	}
 	return nil
 }
@@ -695,17 +793,25 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 		return errors.New("integer or bitmask types expected for bitwise expressions")
 	}
 
-	expr.ResultType = expr.Operand1.ResultType
-	expr.NativeZserioType = expr.Operand1.NativeZserioType
-	isShiftOperation := false
+	if (expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT) &&
+		expr.Operand2.FullyResolved && expr.Operand2.ResultIntValue < 0 {
+		return errors.New("negative shift count")
+	}
+	if !expr.FullyResolved {
+		// The operands are not known. The result is not used, but it must be
+		// possible to calculate it.
+		return expr.evaluateBitwiseType()
+	}
 
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
-		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
-		isShiftOperation = true
+		if isUint64(expr.Operand1.NativeZserioType) {
+			expr.ResultIntValue = int64(uint64(expr.Operand1.ResultIntValue) >> expr.Operand2.ResultIntValue)
+		} else {
+			expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+		}
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
 	case parser.ZserioParserOR:
@@ -715,6 +821,14 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	default:
 		return errors.New("unexpected bitwise operator")
 	}
+	return expr.evaluateBitwiseType()
+}
+
+// evaluateBitwiseType determines the type of a bitwise expression.
+func (expr *Expression) evaluateBitwiseType() error {
+	expr.ResultType = expr.Operand1.ResultType
+	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	isShiftOperation := expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT
 
 	// If operand 1 has no native zserio type determined (e.g. because it is
 	// a numeral), try to deduce the type from the second operand.
@@ -744,21 +858,62 @@ func (expr *Expression) evaluateStringLiteral() error {
 		return errors.New("string literal should contain quotes")
 	}
 	expr.ResultType = ExpressionTypeString
-	expr.ResultStringValue = expressionString[1 : len(expressionString)-1]
+	var err error
+	expr.ResultStringValue, err = unescapeString(expressionString[1 : len(expressionString)-1])
+	return err
+}
+
+// unescapeString replaces the escape sequences of a string literal.
+func unescapeString(text string) (string, error) {
+	var result strings.Builder
+	for len(text) > 0 {
+		if strings.HasPrefix(text, "\\x") && len(text) >= 4 {
+			// other than in Go, this is a character, and not a byte
+			char, err := strconv.ParseUint(text[2:4], 16, 8)
+			if err != nil {
+				return "", err
+			}
+			result.WriteRune(rune(char))
+			text = text[4:]
+			continue
+		}
+		char, _, tail, err := strconv.UnquoteChar(text, '"')
+		if err != nil {
+			return "", err
+		}
+		result.WriteRune(char)
+		text = tail
+	}
+	return result.String(), nil
+}
+
+// isUint64 returns if a value of the type might not fit into an int64.
+func isUint64(typeRef *TypeReference) bool {
+	return typeRef != nil && typeRef.Name == "uint64"
+}
+
+// parseInteger parses an integer literal. Literals that only fit into an
+// unsigned integer are of the type uint64.
+func (expr *Expression) parseInteger(text string, base int) error {
+	value, err := strconv.ParseUint(text, base, 64)
+	if err != nil {
+		return err
+	}
+	expr.ResultType = ExpressionTypeInteger
+	expr.ResultIntValue = int64(value)
+	if value > math.MaxInt64 {
+		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "uint64"}
+	}
 	return nil
 }
 
 func (expr *Expression) evaluateBinaryLiteral() error {
-	expr.ResultType = ExpressionTypeInteger
 	// remove the trailing "b"
 	binaryString := expr.Text
-	if !strings.HasSuffix(binaryString, "b") {
+	if !strings.HasSuffix(binaryString, "b") && !strings.HasSuffix(binaryString, "B") {
 		return errors.New("binary expression is not valid")
 	}
-	binaryString = binaryString[:len(binaryString)-1]
-	var err error
-	expr.ResultIntValue, err = strconv.ParseInt(binaryString, 2, 64)
-	return err
+	return expr.parseInteger(binaryString[:len(binaryString)-1], 2)
 }
 
 // Evaluate evalues the value of the expression, by evaluating all child
@@ -875,16 +1030,13 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserQUESTIONMARK:
 		err = expr.evaluateTernaryExpression()
 	case parser.ZserioParserOCTAL_LITERAL:
-		expr.ResultType = ExpressionTypeInteger
 		// use base 0 to be able to parse the "0" prefix
-		expr.ResultIntValue, err = strconv.ParseInt(expr.Text, 0, 64)
+		err = expr.parseInteger(expr.Text, 0)
 	case parser.ZserioParserDECIMAL_LITERAL:
-		expr.ResultType = ExpressionTypeInteger
-		expr.ResultIntValue, err = strconv.ParseInt(expr.Text, 10, 64)
+		err = expr.parseInteger(expr.Text, 10)
 	case parser.ZserioParserHEXADECIMAL_LITERAL:
-		expr.ResultType = ExpressionTypeInteger
 		// use base 0 to be able to parse the "0x" prefix
-		expr.ResultIntValue, err = strconv.ParseInt(expr.Text, 0, 64)
+		err = expr.parseInteger(expr.Text, 0)
 	case parser.ZserioParserBOOL_LITERAL:
 		expr.ResultType = ExpressionTypeBool
 		expr.ResultBoolValue = false
@@ -894,7 +1046,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From 2962ca46faa5afb9b968ba2d1cff7f724c231980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 23/66] fix: generate expressions that calculate in the largest
 type and keep the precedence of the schema

---
 internal/generator/expression.go              | 578 +++++++++++-------
 .../generator/templates/functions.go.tmpl     |   3 +-
 2 files changed, 352 insertions(+), 229 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..6557886 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -3,10 +3,10 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
-	"github.com/iancoleman/strcase"
-
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
@@ -23,6 +23,9 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 
 	switch n := expression.ResultSymbol.Symbol.(type) {
 	case *ast.Field:
+		if n.IsOptional {
+			return "(*v." + n.Name + ")"
+		}
 		return "v." + n.Name
 	case *ast.Parameter:
 		return "v." + n.Name
@@ -60,40 +63,9 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	leftText := ExpressionToGoString(scope, expression.Operand1)
 	rightText := strings.Title(expression.Operand2.Text)
 
-	// Enums don't exist in Go, so the dot expression must be translated to the
-	// constant, which is Enum name, followed by the Enum value.
-	// The same is valid for bitmasks.
-	if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
-		// Due to Go not supporting Enums, we need to check if subtyping is used.
-		// Instead of generating the Enum value with the subtyped name, we need the
-		// original type name.
-		// For example, instead of:
-		// SubTypeColorBlue
-		// we want:
-		// ColorBlue
-		// because only the latter one is defined in the generated Go code.
-		// First, resolve the original type from the scope.
-		originalType, err := scope.OriginalType(
-			&ast.TypeReference{
-				Name:    expression.Operand1.ResultSymbol.Name,
-				Package: expression.Operand1.ResultSymbol.Package,
-			})
-		if err != nil {
-			return "ENUM_TYPE_LOOKUP_FAILED"
-		}
-		// Generate the enum value using the original type name, as well as the
-		// enumeration value.
-		originalEnumType, err := GoType(scope, originalType.Type)
-		if err != nil {
-			return "ENUM_GO_TYPE_DEDUCTION_FAILED"
-		}
-		enumValue := originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
-		if originalType.RequiresCast {
-			enumValue = fmt.Sprintf("%s(%s)", leftText, enumValue)
-		}
-		return enumValue
-	} else if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
-		return leftText + rightText
+	// The items of enums and bitmasks are constants, only fields are left here.
+	if field, ok := expression.ResultSymbol.Symbol.(*ast.Field); ok && field.IsOptional {
+		return fmt.Sprintf("(*%s.%s)", leftText, rightText)
 	}
 	return fmt.Sprintf("%s.%s", leftText, rightText)
 }
@@ -102,217 +74,356 @@ func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) stri
 	return fmt.Sprintf("ztype.NumBits(uint64(%s))", ExpressionToGoString(scope, expression.Operand1))
 }
 
-func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeReference, error) {
+// goIntegerRanges are the values that are representable in the Go integer types
+// that are used for zserio types.
+var goIntegerRanges = map[string]struct {
+	min int64
+	max uint64
+}{
+	"int":    {math.MinInt64, math.MaxInt64},
+	"int8":   {math.MinInt8, math.MaxInt8},
+	"int16":  {math.MinInt16, math.MaxInt16},
+	"int32":  {math.MinInt32, math.MaxInt32},
+	"int64":  {math.MinInt64, math.MaxInt64},
+	"uint8":  {0, math.MaxUint8},
+	"uint16": {0, math.MaxUint16},
+	"uint32": {0, math.MaxUint32},
+	"uint64": {0, math.MaxUint64},
+}
+
+// goOperandType describes the type of an expression in the generated Go code.
+type goOperandType struct {
+	// name is the name of the Go type. It is empty for constants, which do not
+	// have a type until they are used.
+	name string
+
+	// basic is the name of the Go type that is used to store the values of an
+	// enum or bitmask. It is the same as name for all other types.
+	basic string
+}
+
+func (t goOperandType) isConstant() bool {
+	return t.name == ""
+}
+
+// isLargeConstant returns if an integer expression is a constant that only fits
+// into an uint64.
+func isLargeConstant(expression *ast.Expression) bool {
+	return expression.FullyResolved && expression.ResultIntValue < 0 &&
+		expression.NativeZserioType != nil && expression.NativeZserioType.Name == "uint64"
+}
+
+// constantFits returns if an integer constant is representable in a Go type.
+func constantFits(expression *ast.Expression, goType string) bool {
+	r, found := goIntegerRanges[goType]
+	if !found {
+		return true
+	}
+	if isLargeConstant(expression) {
+		return r.max == math.MaxUint64
+	}
+	value := expression.ResultIntValue
+	return value >= r.min && (value < 0 || uint64(value) <= r.max)
+}
+
+// integerConstant prints an integer constant in a form that is representable in
+// a Go type.
+func integerConstant(expression *ast.Expression, goType string) string {
+	if isLargeConstant(expression) || (goType == "uint64" && expression.ResultIntValue < 0) {
+		return fmt.Sprintf("%d", uint64(expression.ResultIntValue))
+	}
+	return fmt.Sprintf("%d", expression.ResultIntValue)
+}
+
+// typeReferenceToGoType returns the Go type of a type reference, without any
+// indirection by subtypes.
+func typeReferenceToGoType(scope ast.Scope, typeRef *ast.TypeReference) (goOperandType, error) {
+	originalType, err := scope.OriginalType(typeRef)
+	if err != nil {
+		return goOperandType{}, err
+	}
+	name, err := GoType(scope, originalType.Type)
+	if err != nil {
+		return goOperandType{}, err
+	}
+	result := goOperandType{name: name, basic: name}
+	if pkg, ok := scope.(*ast.Package); ok && originalType.IsMarshaler {
+		symbolScope, err := pkg.GetImportedScope(originalType.Type.Package)
+		if err != nil {
+			return goOperandType{}, err
+		}
+		symbol, err := symbolScope.GetSymbol(originalType.Type.Name)
+		if err != nil {
+			return goOperandType{}, err
+		}
+		switch n := symbol.Symbol.(type) {
+		case *ast.Enum:
+			base, err := typeReferenceToGoType(symbolScope, n.Type)
+			result.basic = base.basic
+			return result, err
+		case *ast.BitmaskType:
+			base, err := typeReferenceToGoType(symbolScope, n.Type)
+			result.basic = base.basic
+			return result, err
+		}
+	}
+	return result, nil
+}
 
+// symbolGoType returns the type of a symbol in the generated Go code.
+func symbolGoType(scope ast.Scope, symbol *ast.SymbolReference) (goOperandType, error) {
+	if symbol == nil {
+		return goOperandType{}, errors.New("unable to evaluate the symbol type")
+	}
 	switch n := symbol.Symbol.(type) {
-	case *ast.Enum:
-		return n.Type, nil
 	case *ast.Field:
-		return n.Type, nil
+		return typeReferenceToGoType(scope, n.Type)
 	case *ast.Parameter:
-		return n.Type, nil
-	case *ast.Subtype:
-		return &ast.TypeReference{
-			Name:      n.Name,
-			IsBuiltin: false,
-			Package:   symbol.Package,
-		}, nil
+		return typeReferenceToGoType(scope, n.Type)
 	case *ast.Function:
-		return n.ReturnType, nil
-	case *ast.BitmaskType:
-		return n.Type, nil
+		return typeReferenceToGoType(scope, n.ReturnType)
+	case *ast.TypeReference:
+		return typeReferenceToGoType(scope, n)
 	default:
-		return nil, errors.New("unable to evaluate the symbol type")
+		return goOperandType{}, errors.New("unable to evaluate the symbol type")
 	}
 }
 
-// twoOperatorEqualTypesToGoString prints out an expression that uses two
-// operands, where the operator expects to be both sides of the same type.
-// since there are many different integer and type to integer types, casting
-// might be necessary here.
-func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression) string {
-	operator := ""
-	switch expression.Type {
-	case parser.ZserioParserPLUS:
-		operator = "+"
-	case parser.ZserioParserMINUS:
-		operator = "-"
-	case parser.ZserioParserMULTIPLY:
-		operator = "*"
-	case parser.ZserioParserDIVIDE:
-		operator = "/"
-	case parser.ZserioParserMODULO:
-		operator = "%"
-	case parser.ZserioParserLT:
-		operator = "<"
-	case parser.ZserioParserLE:
-		operator = "<="
-	case parser.ZserioParserGT:
-		operator = ">"
-	case parser.ZserioParserGE:
-		operator = ">="
-	case parser.ZserioParserEQ:
-		operator = "=="
-	case parser.ZserioParserNE:
-		operator = "!="
+// expressionGoType returns the type of an expression in the generated Go code.
+func expressionGoType(scope ast.Scope, expression *ast.Expression) goOperandType {
+	if expression.FullyResolved {
+		return goOperandType{}
+	}
+
+	simpleType := func(name string) goOperandType {
+		return goOperandType{name: name, basic: name}
+	}
+	switch expression.ResultType {
+	case ast.ExpressionTypeBool:
+		return simpleType("bool")
+	case ast.ExpressionTypeString:
+		return simpleType("string")
 	}
 
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	operand2Str := ExpressionToGoString(scope, expression.Operand2)
-
-	// Check if casting is needed because of different original types.
-	// Casting is needed in the following cases:
-	// - mixing floats with integers
-	// - mixing signed/unsigned types
-	// - mixing different bit lengths
-	// - mixing numerals of different types, e.g. 17 + 3.5
-	// Casting is not needed in the following cases:
-	// - The expression result is not an integer.
-	// - One or both operands are numerals without type annotations, for example
-	//   "17.5 + 13.6"
-	//   In that case, NativeZserioType will be set to nil. Both operands must be
-	//   integer or float numerals.
-	if (expression.ResultType == ast.ExpressionTypeInteger || expression.ResultType == ast.ExpressionTypeFloat) && expression.NativeZserioType != nil {
-		// Retrieve the resulting type of the expression
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
+	switch expression.Type {
+	case parser.ZserioParserLPAREN:
+		return expressionGoType(scope, expression.Operand1)
+	case parser.ZserioParserID, parser.ZserioParserDOT, parser.ZserioParserRPAREN, parser.ZserioParserLBRACKET:
+		symbolType, err := symbolGoType(scope, expression.ResultSymbol)
 		if err != nil {
 			panic(err)
 		}
+		return symbolType
+	case parser.ZserioParserINDEX, parser.ZserioParserNUMBITS:
+		return simpleType("int")
+	case parser.ZserioParserLENGTHOF:
+		return simpleType("int64")
+	case parser.ZserioParserVALUEOF:
+		return simpleType(largestGoType(scope, expression.Operand1))
+	case parser.ZserioParserQUESTIONMARK:
+		if expression.ResultType != ast.ExpressionTypeInteger && expression.ResultType != ast.ExpressionTypeFloat {
+			return expressionGoType(scope, expression.Operand2)
+		}
+		return simpleType(largestGoType(scope, expression.Operand2, expression.Operand3))
+	case parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT:
+		return simpleType(largestGoType(scope, expression.Operand1))
+	case parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		return bitwiseGoType(scope, expression.Operand1, expression.Operand2)
+	case parser.ZserioParserTILDE:
+		return bitwiseGoType(scope, expression.Operand1, expression.Operand1)
+	default:
+		if expression.Operand2 == nil {
+			return simpleType(largestGoType(scope, expression.Operand1))
+		}
+		return simpleType(largestGoType(scope, expression.Operand1, expression.Operand2))
+	}
+}
 
-		operand1RequiresCast := false
-		operand2RequiresCast := false
-		operand1GoType := ""
-		operand2GoType := ""
-		// Check if operand1 or operand2 (or both) needs a type cast.
-		// In very rare cases, both operands need to be casted:
-		// For example, mixing an uint8 with an int32 will require both
-		// operands to be casted to uint32 (highest rank + unsigned wins).
-		if expression.Operand1.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op1Type, err := getSymbolType(scope, expression.Operand1.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand1GoType, err = GoType(scope, op1Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand1.ResultType != expression.ResultType {
-				operand1RequiresCast = true
-			} else if expression.Operand1.NativeZserioType != nil {
-				operand1GoType, err = GoType(scope, expression.Operand1.NativeZserioType)
-				if err != nil {
-					panic(err)
-				}
-			}
+// largestGoType returns the name of the Go type that is used to calculate with
+// numeric operands. So that calculations do not depend on the size of the
+// operands, this is always the largest type.
+func largestGoType(scope ast.Scope, operands ...*ast.Expression) string {
+	result := "int64"
+	for _, operand := range operands {
+		if operand.ResultType == ast.ExpressionTypeFloat {
+			return "float64"
 		}
-		if operand1GoType != expressionGoType {
-			operand1RequiresCast = true
+		if expressionGoType(scope, operand).basic == "uint64" || isLargeConstant(operand) {
+			result = "uint64"
 		}
+	}
+	return result
+}
 
-		if expression.Operand2.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op2Type, err := getSymbolType(scope, expression.Operand2.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand2GoType, err = GoType(scope, op2Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand2.ResultType != expression.ResultType {
-				operand2RequiresCast = true
-			} else if expression.Operand2.NativeZserioType != nil {
-				operand2GoType, err = GoType(scope, expression.Operand2.NativeZserioType)
-				if err != nil {
-					panic(err)
-				}
-			}
+// bitwiseGoType returns the type that is used to calculate a bitwise expression.
+// Bitmasks keep their type.
+func bitwiseGoType(scope ast.Scope, operand1, operand2 *ast.Expression) goOperandType {
+	if operand1.ResultType == ast.ExpressionTypeBitmask || operand2.ResultType == ast.ExpressionTypeBitmask {
+		type1 := expressionGoType(scope, operand1)
+		type2 := expressionGoType(scope, operand2)
+		if type1.isConstant() && constantFits(operand1, type2.basic) || type1 == type2 {
+			return type2
 		}
-		if operand2GoType != expressionGoType {
-			operand2RequiresCast = true
+		if type2.isConstant() && constantFits(operand2, type1.basic) {
+			return type1
 		}
+	}
+	largest := largestGoType(scope, operand1, operand2)
+	return goOperandType{name: largest, basic: largest}
+}
 
-		if operand1RequiresCast {
-			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+// operandToGoString prints an operand of an expression as a value of a Go type.
+func operandToGoString(scope ast.Scope, operand *ast.Expression, goType string) string {
+	operandType := expressionGoType(scope, operand)
+	switch {
+	case operandType.isConstant() && (operand.ResultType == ast.ExpressionTypeInteger || operand.ResultType == ast.ExpressionTypeBitmask || operand.ResultType == ast.ExpressionTypeEnum):
+		if goType == "" {
+			return integerConstant(operand, goType)
+		}
+		return fmt.Sprintf("%s(%s)", goType, integerConstant(operand, goType))
+	case operandType.isConstant() || operandType.name == goType || goType == "":
+		operandStr := ExpressionToGoString(scope, operand)
+		if operand.FullyResolved {
+			return operandStr
 		}
-		if operand2RequiresCast {
-			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
+		switch operand.Type {
+		case parser.ZserioParserID, parser.ZserioParserDOT, parser.ZserioParserLPAREN, parser.ZserioParserRPAREN,
+			parser.ZserioParserLBRACKET, parser.ZserioParserINDEX, parser.ZserioParserLENGTHOF, parser.ZserioParserNUMBITS,
+			parser.ZserioParserVALUEOF, parser.ZserioParserQUESTIONMARK:
+			return operandStr
 		}
+		// The precedence of the operators is not the same in zserio and in Go.
+		return fmt.Sprintf("(%s)", operandStr)
+	default:
+		return fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, operand))
 	}
+}
 
+var goOperators = map[int]string{
+	parser.ZserioParserPLUS:        "+",
+	parser.ZserioParserMINUS:       "-",
+	parser.ZserioParserMULTIPLY:    "*",
+	parser.ZserioParserDIVIDE:      "/",
+	parser.ZserioParserMODULO:      "%",
+	parser.ZserioParserLT:          "<",
+	parser.ZserioParserLE:          "<=",
+	parser.ZserioParserGT:          ">",
+	parser.ZserioParserGE:          ">=",
+	parser.ZserioParserEQ:          "==",
+	parser.ZserioParserNE:          "!=",
+	parser.ZserioLexerLSHIFT:       "<<",
+	parser.ZserioParserRSHIFT:      ">>",
+	parser.ZserioParserAND:         "&",
+	parser.ZserioParserOR:          "|",
+	parser.ZserioParserXOR:         "^",
+	parser.ZserioParserLOGICAL_AND: "&&",
+	parser.ZserioParserLOGICAL_OR:  "||",
+}
+
+// arithmeticToGoString prints an arithmetic expression with one or two operands.
+// Both operands are of the type of the expression.
+func arithmeticToGoString(scope ast.Scope, expression *ast.Expression) string {
+	goType := expressionGoType(scope, expression).name
+	operand1Str := operandToGoString(scope, expression.Operand1, goType)
+	if expression.Operand2 == nil {
+		return goOperators[expression.Type] + operand1Str
+	}
 	return fmt.Sprintf("%s %s %s",
 		operand1Str,
-		operator,
-		operand2Str)
+		goOperators[expression.Type],
+		operandToGoString(scope, expression.Operand2, goType))
 }
 
-func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	operator := ""
-	isShiftOperator := false
-	switch expression.Type {
-	case parser.ZserioLexerLSHIFT:
-		operator = "<<"
-		isShiftOperator = true
-	case parser.ZserioParserRSHIFT:
-		operator = ">>"
-		isShiftOperator = true
-	case parser.ZserioParserAND:
-		operator = "&"
-	case parser.ZserioParserOR:
-		operator = "|"
-	case parser.ZserioParserXOR:
-		operator = "^"
-	case parser.ZserioParserLOGICAL_AND:
-		operator = "&&"
-	case parser.ZserioParserLOGICAL_OR:
-		operator = "||"
+// comparisonToGoString prints a comparison. Go only compares operands of the
+// same type, so casting might be necessary here.
+func comparisonToGoString(scope ast.Scope, expression *ast.Expression) string {
+	operator := goOperators[expression.Type]
+	op1, op2 := expression.Operand1, expression.Operand2
+	type1 := expressionGoType(scope, op1)
+	type2 := expressionGoType(scope, op2)
+	compare := func(goType string) string {
+		return fmt.Sprintf("%s %s %s", operandToGoString(scope, op1, goType), operator, operandToGoString(scope, op2, goType))
 	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
-		// Resolve issue
-		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
-		// Shift operations in Go may implicitly cast the first parameter to a float
-		// if there is a cast to a different type.
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
+
+	switch {
+	case op1.ResultType == ast.ExpressionTypeBool || op1.ResultType == ast.ExpressionTypeString || type1 == type2:
+		return compare("")
+	case op1.ResultType == ast.ExpressionTypeFloat || op2.ResultType == ast.ExpressionTypeFloat:
+		return compare("float64")
+	case type1.isConstant() && constantFits(op1, type2.basic):
+		return compare("")
+	case type2.isConstant() && constantFits(op2, type1.basic):
+		return compare("")
+	case type1.basic != "uint64" && type2.basic != "uint64" && !isLargeConstant(op1) && !isLargeConstant(op2):
+		return compare("int64")
+	}
+
+	// An operand does not fit into an int64, and the other operand might be
+	// negative.
+	isUnsigned := func(operand *ast.Expression, operandType goOperandType) bool {
+		if operandType.isConstant() {
+			return operand.ResultIntValue >= 0 || isLargeConstant(operand)
 		}
-		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
+		return strings.HasPrefix(operandType.basic, "uint")
+	}
+	unsigned1, unsigned2 := isUnsigned(op1, type1), isUnsigned(op2, type2)
+	if unsigned1 == unsigned2 {
+		return compare("uint64")
 	}
+	signedOperand := op1
+	resultIfNegative := operator == "<" || operator == "<=" || operator == "!="
+	if unsigned1 {
+		signedOperand = op2
+		resultIfNegative = operator == ">" || operator == ">=" || operator == "!="
+	}
+	signedStr := operandToGoString(scope, signedOperand, "int64")
+	if resultIfNegative {
+		return fmt.Sprintf("(%s < 0 || %s)", signedStr, compare("uint64"))
+	}
+	return fmt.Sprintf("(%s >= 0 && %s)", signedStr, compare("uint64"))
+}
 
+func logicalToGoString(scope ast.Scope, expression *ast.Expression) string {
 	return fmt.Sprintf("%s %s %s",
-		operand1Str,
-		operator,
-		ExpressionToGoString(scope, expression.Operand2))
+		operandToGoString(scope, expression.Operand1, ""),
+		goOperators[expression.Type],
+		operandToGoString(scope, expression.Operand2, ""))
+}
+
+func shiftToGoString(scope ast.Scope, expression *ast.Expression) string {
+	// Negative shift counts are not allowed in Go.
+	return fmt.Sprintf("%s %s %s",
+		operandToGoString(scope, expression.Operand1, expressionGoType(scope, expression).name),
+		goOperators[expression.Type],
+		operandToGoString(scope, expression.Operand2, "uint64"))
+}
+
+func bitwiseNegationToGoString(scope ast.Scope, expression *ast.Expression) string {
+	return "^" + operandToGoString(scope, expression.Operand1, expressionGoType(scope, expression).name)
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-	op1 := ExpressionToGoString(scope, expression.Operand1)
-	op2 := ExpressionToGoString(scope, expression.Operand2)
-	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
-	}
 	// Ternary expressions are not supported by Go. As a workaround,
-	// generate the ternary expression as an if/else
-	return fmt.Sprintf("%s\nif %s {\nretVal = %s\n}\n",
-		op3,
-		op1,
-		op2,
+	// generate the ternary expression as a function.
+	goType := expressionGoType(scope, expression).name
+	if goType == "" {
+		goType = expressionGoType(scope, expression.Operand3).name
+	}
+	if goType == "" {
+		goType = largestGoType(scope, expression.Operand2, expression.Operand3)
+	}
+	return fmt.Sprintf("func() %s {\nif %s {\nreturn %s\n}\nreturn %s\n}()",
+		goType,
+		ExpressionToGoString(scope, expression.Operand1),
+		operandToGoString(scope, expression.Operand2, goType),
+		operandToGoString(scope, expression.Operand3, goType),
 	)
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	goType := bitwiseGoType(scope, expression.Operand1, expression.Operand2).name
+	bits := operandToGoString(scope, expression.Operand2, goType)
+	return fmt.Sprintf("%s & %s == %s", operandToGoString(scope, expression.Operand1, goType), bits, bits)
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -323,20 +434,31 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return ExpressionToGoString(scope, expression.Operand1)
+	return fmt.Sprintf("%s(%s)", expressionGoType(scope, expression).name, ExpressionToGoString(scope, expression.Operand1))
+}
+
+func floatToGoString(value float64) string {
+	text := strconv.FormatFloat(value, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		// it must not be mistaken for an integer
+		text += ".0"
+	}
+	return text
 }
 
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
 		case ast.ExpressionTypeInteger:
-			return fmt.Sprintf("%v", expression.ResultIntValue)
+			return integerConstant(expression, "")
 		case ast.ExpressionTypeBool:
 			return fmt.Sprintf("%t", expression.ResultBoolValue)
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			return floatToGoString(expression.ResultFloatValue)
+		case ast.ExpressionTypeEnum, ast.ExpressionTypeBitmask:
+			return integerConstant(expression, "")
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
@@ -359,43 +481,45 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
 	case parser.ZserioParserPLUS:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserMINUS:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserMULTIPLY:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserDIVIDE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
+		return "!" + operandToGoString(scope, expression.Operand1, "")
+	case parser.ZserioParserTILDE:
+		return bitwiseNegationToGoString(scope, expression)
 	case parser.ZserioParserMODULO:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioLexerLSHIFT:
-		return twoOperatorToGoString(scope, expression)
+		return shiftToGoString(scope, expression)
 	case parser.ZserioParserRSHIFT:
-		return twoOperatorToGoString(scope, expression)
+		return shiftToGoString(scope, expression)
 	case parser.ZserioParserAND:
-		return twoOperatorToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserOR:
-		return twoOperatorToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserXOR:
-		return twoOperatorToGoString(scope, expression)
+		return arithmeticToGoString(scope, expression)
 	case parser.ZserioParserLOGICAL_AND:
-		return twoOperatorToGoString(scope, expression)
+		return logicalToGoString(scope, expression)
 	case parser.ZserioParserLOGICAL_OR:
-		return twoOperatorToGoString(scope, expression)
+		return logicalToGoString(scope, expression)
 	case parser.ZserioParserLT:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserLE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserGT:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserGE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserEQ:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserNE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
+		return comparisonToGoString(scope, expression)
 	case parser.ZserioParserINDEX:
 		// hard-code the name of the index variable used in the template
 		return "index"
diff --git a/internal/generator/templates/functions.go.tmpl b/internal/generator/templates/functions.go.tmpl
index 821e96e..019e242 100644
--- a/internal/generator/templates/functions.go.tmpl
+++ b/internal/generator/templates/functions.go.tmpl
@@ -3,7 +3,6 @@
 {{- $functions := .functions }}
 {{- range $function := $functions }}
 func (v *{{ $name }}) {{ .Name }}() {{ goType $scope .ReturnType }} {
-   retVal := {{ goExpression $scope .Result }}
-   return {{ goType $scope .ReturnType }}(retVal)
+   return {{ goType $scope .ReturnType }}({{ goExpression $scope .Result }})
 }
 {{- end}}
-- 
2.43.0


From aa57b3cdf13e2acd4d613a4bf65d809c4b675c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 24/66] fix: enums and bitmasks of any integer base type, and a
 copy of the enum values for each caller

---
 internal/generator/templates/bitmask.go.tmpl |  8 ++++----
 internal/generator/templates/enum.go.tmpl    |  9 ++++++---
 internal/model/transform.go                  | 20 +++++++++++++++++++-
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..8bd2ed2 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -1,7 +1,7 @@
 {{ $scope := .pkg }} 
 {{ $bitmask := .bitmask }}
 {{ $native := goNativeType $scope $bitmask.Type }}
-{{ $go_type := goType $scope $bitmask.Type }}
+{{ $go_type := goType $scope $native.Type }}
 {{ $obj_with_cast := printf "%s(*v)" $go_type }} 
 
 
@@ -26,10 +26,10 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
       panic("only builtin types supported")
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
-    {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
+    {{- else if or (eq $native.Type.Name "bit") (eq $native.Type.Name "uint") }}
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
       panic("unsupported type")
     {{- end }}
diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..74bb742 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -2,6 +2,7 @@
 {{ $enum := .enum }}
 {{ $options := .options }}
 {{ $native := goNativeType $scope $enum.Type }}
+{{ $obj_with_cast := printf "%s(*v)" (goType $scope $native.Type) }}
 
 {{ $enum.Comment }}
 type {{ $enum.Name }} {{ goType $scope $enum.Type }}
@@ -43,7 +44,9 @@ var _{{ $enum.Name }}NameToValue = map[string]{{ $enum.Name }}{
 
 // {{ $enum.Name }}Values returns all values of the enum
 func {{ $enum.Name }}Values() []{{ $enum.Name }} {
-  return _{{ $enum.Name }}Values
+  values := make([]{{ $enum.Name }}, len(_{{ $enum.Name }}Values))
+  copy(values, _{{ $enum.Name }}Values)
+  return values
 }
 
 // {{ $enum.Name }}Strings returns a slice of all string values of the enum
@@ -116,7 +119,7 @@ func (v *{{ $enum.Name}}) MarshalZserio(w zserio.Writer) error {
       panic("only builtin types supported")
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
-    {{- else if eq $native.Type.Name "bit" }}
+    {{- else if or (eq $native.Type.Name "bit") (eq $native.Type.Name "uint") }}
       return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
       return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
@@ -151,7 +154,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" $obj_with_cast "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 868683c..6299605 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,6 +3,7 @@ package model
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -590,7 +591,10 @@ func (m *Model) ResolveImports() error {
 			if !found {
 				return UnknownPackage{imp.Package}
 			}
-			if imp.Type == "*" {
+			if imp.Type != "*" && !iPkg.HasType(imp.Type) {
+				return UnknownType{ast.TypeReference{Package: imp.Package, Name: imp.Type}}
+			}
+			if !slices.Contains(pkg.ImportedPackages, iPkg) {
 				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
 			}
 		}
@@ -842,6 +846,20 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
+		for _, enum := range pkg.Enums {
+			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
+				return TypeError{
+					TypeReference: ast.TypeReference{
+						IsBuiltin: false,
+						Package:   pkg.Name,
+						Name:      enum.Type.Name,
+					},
+					Field: enum.Name,
+					Err:   err,
+				}
+			}
+		}
+
 		for _, bitmask := range pkg.Bitmasks {
 			if err := m.resolveTypeReference(pkg, bitmask.Type, map[string]bool{}); err != nil {
 				return TypeError{
-- 
2.43.0


From e6c063af231054db7a2a5a9adb762d7fb522087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 25/66] fix: report syntax errors and unsupported declarations
 instead of generating incomplete code, and resolve imports of single symbols

---
 internal/model/package.go   | 25 +++++++++++-
 internal/visitor/visitor.go | 80 +++++++++++++++++++++++++++++--------
 2 files changed, 86 insertions(+), 19 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..a39a7d0 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,28 +1,49 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// syntaxErrorListener collects the syntax errors of a file.
+type syntaxErrorListener struct {
+	*antlr.DefaultErrorListener
+
+	path string
+	errs []error
+}
+
+// SyntaxError implements antlr.ErrorListener.
+func (l *syntaxErrorListener) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
+	l.errs = append(l.errs, fmt.Errorf("%s:%d:%d: %s", l.path, line, column, msg))
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	syntaxErrors := &syntaxErrorListener{path: path}
 	lexer := parser.NewZserioLexer(input)
+	lexer.AddErrorListener(syntaxErrors)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.AddErrorListener(syntaxErrors)
 	tree := p.PackageDeclaration()
+	if len(syntaxErrors.errs) > 0 {
+		return nil, errors.Join(syntaxErrors.errs...)
+	}
 	visitor := &visitor.Visitor{}
 
 	switch v := visitor.Visit(tree).(type) {
 	case error:
-		return nil, err
+		return nil, fmt.Errorf("%s: %w", path, v)
 	case *ast.Package:
 		return v, nil
 	}
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..34f25a8 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -15,6 +15,7 @@ import (
 
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
+var ErrMissingPackageName = errors.New("schemas without a package are not supported")
 
 type Visitor struct {
 	parser.BaseZserioParserVisitor
@@ -44,7 +45,19 @@ func (v *Visitor) VisitChildren(node antlr.RuleNode) any {
 	return children
 }
 
+// visitOnlyChild visits a node that has exactly one child.
+func (v *Visitor) visitOnlyChild(node antlr.RuleNode) any {
+	result := v.VisitChildren(node)
+	if children, ok := result.([]any); ok {
+		return children[0]
+	}
+	return result
+}
+
 func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext) any {
+	if ctx.PackageNameDefinition() == nil {
+		return ErrMissingPackageName
+	}
 	pkg := ast.NewPackage(v.Visit(ctx.PackageNameDefinition().(antlr.ParseTree)).(string))
 	pkg.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 
@@ -74,6 +87,8 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 			pkg.Bitmasks[n.Name] = n
 		case *ast.Choice:
 			pkg.Choices[n.Name] = n
+		case error:
+			return n
 		}
 	}
 	return pkg
@@ -114,9 +129,9 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
+	symbolName := "*"
+	if ctx.MULTIPLY() == nil {
+		symbolName = children[len(children)-2].(antlr.ParseTree).GetText()
 	}
 	return &ast.Import{
 		Package: strings.Join(parts[:len(parts)-1], ""),
@@ -125,18 +140,15 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 }
 
 func (v *Visitor) VisitLanguageDirective(ctx *parser.LanguageDirectiveContext) any {
-	// There can be only one child - return that directly.
-	return v.VisitChildren(ctx).([]any)[0]
+	return v.visitOnlyChild(ctx)
 }
 
 func (v *Visitor) VisitTypeDeclaration(ctx *parser.TypeDeclarationContext) any {
-	// There can be only one child - return that directly.
-	return v.VisitChildren(ctx).([]any)[0]
+	return v.visitOnlyChild(ctx)
 }
 
 func (v *Visitor) VisitSymbolDefinition(ctx *parser.SymbolDefinitionContext) any {
-	// There can be only one child - return that directly.
-	return v.VisitChildren(ctx).([]any)[0]
+	return v.visitOnlyChild(ctx)
 }
 
 func (v *Visitor) VisitConstDefinition(ctx *parser.ConstDefinitionContext) any {
@@ -171,7 +183,12 @@ func (v *Visitor) VisitStructureDeclaration(ctx *parser.StructureDeclarationCont
 	}
 
 	for _, fieldContext := range ctx.AllStructureFieldDefinition() {
-		typ.Fields = append(typ.Fields, v.Visit(fieldContext.(antlr.ParseTree)).(*ast.Field))
+		switch field := v.Visit(fieldContext.(antlr.ParseTree)).(type) {
+		case *ast.Field:
+			typ.Fields = append(typ.Fields, field)
+		case error:
+			return fmt.Errorf("%s: %w", typ.Name, field)
+		}
 	}
 
 	for _, functionContext := range ctx.AllFunctionDefinition() {
@@ -182,7 +199,11 @@ func (v *Visitor) VisitStructureDeclaration(ctx *parser.StructureDeclarationCont
 }
 
 func (v *Visitor) VisitStructureFieldDefinition(ctx *parser.StructureFieldDefinitionContext) any {
-	field := v.Visit(ctx.FieldTypeId().(antlr.ParseTree)).(*ast.Field)
+	result := v.Visit(ctx.FieldTypeId().(antlr.ParseTree))
+	field, ok := result.(*ast.Field)
+	if !ok {
+		return result
+	}
 	field.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 	field.IsOptional = ctx.OPTIONAL() != nil
 	if a := ctx.FieldAlignment(); a != nil {
@@ -280,7 +301,12 @@ func (v *Visitor) VisitChoiceCases(ctx *parser.ChoiceCasesContext) any {
 	}
 
 	if tp := ctx.ChoiceFieldDefinition(); tp != nil {
-		typ.Field = v.VisitChoiceFieldDefinition(tp.(*parser.ChoiceFieldDefinitionContext)).(*ast.Field)
+		result := v.VisitChoiceFieldDefinition(tp.(*parser.ChoiceFieldDefinitionContext))
+		field, ok := result.(*ast.Field)
+		if !ok {
+			return result
+		}
+		typ.Field = field
 	}
 	return typ
 }
@@ -288,13 +314,18 @@ func (v *Visitor) VisitChoiceCases(ctx *parser.ChoiceCasesContext) any {
 func (v *Visitor) VisitChoiceDefault(ctx *parser.ChoiceDefaultContext) any {
 	typ := &ast.ChoiceCase{}
 	if tp := ctx.ChoiceFieldDefinition(); tp != nil {
-		typ.Field = v.VisitChoiceFieldDefinition(tp.(*parser.ChoiceFieldDefinitionContext)).(*ast.Field)
+		result := v.VisitChoiceFieldDefinition(tp.(*parser.ChoiceFieldDefinitionContext))
+		field, ok := result.(*ast.Field)
+		if !ok {
+			return result
+		}
+		typ.Field = field
 	}
 	return typ
 }
 
 func (v *Visitor) VisitChoiceFieldDefinition(ctx *parser.ChoiceFieldDefinitionContext) any {
-	return v.VisitFieldTypeId(ctx.FieldTypeId().(*parser.FieldTypeIdContext)).(*ast.Field)
+	return v.VisitFieldTypeId(ctx.FieldTypeId().(*parser.FieldTypeIdContext))
 }
 
 func (v *Visitor) VisitChoiceDeclaration(ctx *parser.ChoiceDeclarationContext) any {
@@ -314,12 +345,22 @@ func (v *Visitor) VisitChoiceDeclaration(ctx *parser.ChoiceDeclarationContext) a
 
 	// visit all choice cases
 	for _, choiceCasesContext := range ctx.AllChoiceCases() {
-		typ.Cases = append(typ.Cases, v.VisitChoiceCases(choiceCasesContext.(*parser.ChoiceCasesContext)).(*ast.ChoiceCase))
+		switch choiceCase := v.VisitChoiceCases(choiceCasesContext.(*parser.ChoiceCasesContext)).(type) {
+		case *ast.ChoiceCase:
+			typ.Cases = append(typ.Cases, choiceCase)
+		case error:
+			return fmt.Errorf("%s: %w", typ.Name, choiceCase)
+		}
 	}
 
 	// visit the default choice
 	if ctx.ChoiceDefault() != nil {
-		typ.DefaultCase = v.VisitChoiceDefault(ctx.ChoiceDefault().(*parser.ChoiceDefaultContext)).(*ast.ChoiceCase)
+		switch choiceCase := v.VisitChoiceDefault(ctx.ChoiceDefault().(*parser.ChoiceDefaultContext)).(type) {
+		case *ast.ChoiceCase:
+			typ.DefaultCase = choiceCase
+		case error:
+			return fmt.Errorf("%s: %w", typ.Name, choiceCase)
+		}
 	}
 
 	for _, functionContext := range ctx.AllFunctionDefinition() {
@@ -346,7 +387,12 @@ func (v *Visitor) VisitUnionDeclaration(ctx *parser.UnionDeclarationContext) any
 	for _, unionField := range ctx.AllUnionFieldDefinition() {
 		unionFieldDefinitionContext := unionField.(*parser.UnionFieldDefinitionContext)
 		choiceFieldDefinitionContext := unionFieldDefinitionContext.ChoiceFieldDefinition().(*parser.ChoiceFieldDefinitionContext)
-		typ.Fields = append(typ.Fields, v.VisitChoiceFieldDefinition(choiceFieldDefinitionContext).(*ast.Field))
+		switch field := v.VisitChoiceFieldDefinition(choiceFieldDefinitionContext).(type) {
+		case *ast.Field:
+			typ.Fields = append(typ.Fields, field)
+		case error:
+			return fmt.Errorf("%s: %w", typ.Name, field)
+		}
 	}
 
 	for _, functionContext := range ctx.AllFunctionDefinition() {
-- 
2.43.0


From 12cea5dbe5c7b4aef8996f843e04131c4ea288a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 26/66] fix: refuse constants, enum and bitmask values outside
 of their type; keep names of types; give each template instantiation its own
 copy, also for unions and nested templates

---
 internal/ast/bitmask.go        |   5 +
 internal/ast/const.go          |  81 ++++-
 internal/ast/enum.go           |   3 +
 internal/ast/expression.go     |  19 ++
 internal/ast/field.go          |  17 +
 internal/ast/type_reference.go |  31 ++
 internal/model/model.go        |   5 +
 internal/model/transform.go    | 583 ++++++++++++++++++---------------
 8 files changed, 478 insertions(+), 266 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..72d6eb9 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type BitmaskValue struct {
 	Name string
 	*Expression
@@ -44,6 +46,9 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				return err
 			}
 		}
+		if err := checkValueRange(p, bitmask.Type, value.Expression); err != nil {
+			return fmt.Errorf("%s.%s: %w", bitmask.Name, value.Name, err)
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8cd7e24..4d138d1 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -1,5 +1,13 @@
 package ast
 
+import (
+	"errors"
+	"fmt"
+	"math"
+)
+
+var ErrValueOutOfRange = errors.New("value is out of range")
+
 // Const is a zserio constant
 type Const struct {
 	Name            string
@@ -10,5 +18,76 @@ type Const struct {
 
 // Evaluate evalutes the value expression of a const type
 func (c *Const) Evaluate(scope *Package) error {
-	return c.ValueExpression.Evaluate(scope)
+	if err := c.ValueExpression.Evaluate(scope); err != nil {
+		return err
+	}
+	if err := checkValueRange(scope, c.Type, c.ValueExpression); err != nil {
+		return fmt.Errorf("%s: %w", c.Name, err)
+	}
+	return nil
+}
+
+// integerTypeRange returns the smallest and the largest value of an integer
+// type. It returns false for types that are not integers, and for types whose
+// number of bits is not known.
+func integerTypeRange(typeRef *TypeReference) (int64, uint64, bool) {
+	bits := typeRef.Bits
+	switch typeRef.Name {
+	case "int8", "uint8":
+		bits = 8
+	case "int16", "uint16":
+		bits = 16
+	case "int32", "uint32":
+		bits = 32
+	case "int64", "uint64", "varint", "varuint":
+		bits = 64
+	case "varint16":
+		return -1<<14 + 1, 1<<14 - 1, true
+	case "varint32":
+		return -1<<28 + 1, 1<<28 - 1, true
+	case "varint64":
+		return -1<<56 + 1, 1<<56 - 1, true
+	case "varuint16":
+		return 0, 1<<15 - 1, true
+	case "varuint32":
+		return 0, 1<<29 - 1, true
+	case "varuint64":
+		return 0, 1<<57 - 1, true
+	case "varsize":
+		return 0, math.MaxInt32, true
+	case "int", "uint", "bit":
+	default:
+		return 0, 0, false
+	}
+	if bits < 1 || bits > 64 {
+		return 0, 0, false
+	}
+	if typeRef.Name[0] == 'i' || typeRef.Name == "varint" {
+		return math.MinInt64 >> (64 - bits), math.MaxInt64 >> (64 - bits), true
+	}
+	return 0, math.MaxUint64 >> (64 - bits), true
+}
+
+// checkValueRange returns an error if the value of an expression is not
+// representable in an integer type.
+func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression) error {
+	if value.ResultType != ExpressionTypeInteger {
+		return nil
+	}
+	originalType, err := scope.GetOriginalType(typeRef)
+	if err != nil {
+		return err
+	}
+	if originalType.IsMarshaler {
+		return nil
+	}
+	min, max, ok := integerTypeRange(originalType.Type)
+	if !ok {
+		return nil
+	}
+	isNegative := value.ResultIntValue < 0 && !isUint64(value.NativeZserioType)
+	if isNegative && value.ResultIntValue < min || !isNegative && uint64(value.ResultIntValue) > max {
+		return fmt.Errorf("%w of %s: %d", ErrValueOutOfRange, originalType.Type.Name, value.ResultIntValue)
+	}
+	return nil
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..cd46ed1 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -52,6 +52,9 @@ func (e *Enum) Evaluate(scope *Package) error {
 				return err
 			}
 		}
+		if err := checkValueRange(scope, e.Type, item.Expression); err != nil {
+			return fmt.Errorf("%s.%s: %w", e.Name, item.Name, err)
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index d96cb46..68780f3 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -86,6 +86,25 @@ type Expression struct {
 	FullyResolved bool
 }
 
+// Instantiate returns a copy of an expression that was not evaluated yet, which
+// does not share anything with the original. Names of template parameters are
+// replaced by the names of their types.
+func (expr *Expression) Instantiate(templateTypes map[string]*TypeReference) *Expression {
+	if expr == nil {
+		return nil
+	}
+	instantiated := *expr
+	instantiated.Operand1 = expr.Operand1.Instantiate(templateTypes)
+	instantiated.Operand2 = expr.Operand2.Instantiate(templateTypes)
+	instantiated.Operand3 = expr.Operand3.Instantiate(templateTypes)
+	if expr.Type == parser.ZserioParserDOT && expr.Operand1.Type == parser.ZserioParserID {
+		if templateType, found := templateTypes[expr.Operand1.Text]; found {
+			instantiated.Operand1.Text = templateType.Name
+		}
+	}
+	return &instantiated
+}
+
 func copyExpressionResult(src, dst *Expression) {
 	dst.ResultBoolValue = src.ResultBoolValue
 	dst.ResultIntValue = src.ResultIntValue
diff --git a/internal/ast/field.go b/internal/ast/field.go
index 75239da..aa9d751 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -57,3 +57,20 @@ func (f *Field) Evaluate(p *Package) error {
 	}
 	return nil
 }
+
+// Instantiate returns a copy of a field, which does not share anything with the
+// original. Template parameters are replaced by their types.
+func (f *Field) Instantiate(templateTypes map[string]*TypeReference) *Field {
+	instantiated := *f
+	instantiated.Type = f.Type.Instantiate(templateTypes)
+	instantiated.Initializer = f.Initializer.Instantiate(templateTypes)
+	instantiated.Constraint = f.Constraint.Instantiate(templateTypes)
+	instantiated.OptionalClause = f.OptionalClause.Instantiate(templateTypes)
+	if f.Array != nil {
+		instantiated.Array = &Array{
+			IsPacked: f.Array.IsPacked,
+			Length:   f.Array.Length.Instantiate(templateTypes),
+		}
+	}
+	return &instantiated
+}
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index ebc243b..6256909 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -31,3 +31,34 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 	}
 	return nil
 }
+
+func instantiateExpressions(expressions []*Expression, templateTypes map[string]*TypeReference) []*Expression {
+	if expressions == nil {
+		return nil
+	}
+	instantiated := make([]*Expression, len(expressions))
+	for ix, expression := range expressions {
+		instantiated[ix] = expression.Instantiate(templateTypes)
+	}
+	return instantiated
+}
+
+// Instantiate returns a copy of a type reference, which does not share anything
+// with the original. Template parameters are replaced by their types.
+func (tr *TypeReference) Instantiate(templateTypes map[string]*TypeReference) *TypeReference {
+	if templateType, found := templateTypes[tr.Name]; found && !tr.IsBuiltin && tr.Package == "" {
+		instantiated := templateType.Instantiate(nil)
+		//  If the template has type arguments, these arguments need to
+		// be applied also to the instantiated type.
+		instantiated.TypeArguments = instantiateExpressions(tr.TypeArguments, templateTypes)
+		return instantiated
+	}
+	instantiated := *tr
+	instantiated.TypeArguments = instantiateExpressions(tr.TypeArguments, templateTypes)
+	instantiated.LengthExpression = tr.LengthExpression.Instantiate(templateTypes)
+	instantiated.TemplateArguments = nil
+	for _, templateArgument := range tr.TemplateArguments {
+		instantiated.TemplateArguments = append(instantiated.TemplateArguments, templateArgument.Instantiate(templateTypes))
+	}
+	return &instantiated
+}
diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..552cd4a 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -13,6 +13,11 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// instantiations are the templates and arguments of all instantiated types,
+	// by the name of the instantiated type.
+	instantiations     map[string]string
+	instantiationDepth int
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 6299605..86892f5 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sort"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -36,21 +37,17 @@ func (e UnknownType) Error() string {
 }
 
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
+var ErrRecursiveTemplate = errors.New("too many templates that use each other")
+var ErrInstantiationNameConflict = errors.New("name of the instantiated template is already used by another type")
 
 func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
 			c.Name = strings.Title(c.Name)
-			if !c.Type.IsBuiltin {
-				c.Type.Name = strings.Title(c.Type.Name)
-			}
 		}
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-			if !e.Type.IsBuiltin {
-				e.Type.Name = strings.Title(e.Type.Name)
-			}
 
 			for _, item := range e.Items {
 				item.Name = strings.Title(item.Name)
@@ -65,9 +62,6 @@ func (m *Model) CapitalizeNames() {
 			for _, field := range u.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range u.Functions {
 				function.Name = strings.Title(function.Name)
@@ -82,15 +76,13 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, structure := range pkg.Structs {
+			structure.Name = strings.Title(structure.Name)
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
 			for _, field := range structure.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range structure.Functions {
 				function.Name = strings.Title(function.Name)
@@ -98,7 +90,12 @@ func (m *Model) CapitalizeNames() {
 
 		}
 
+		for _, subtype := range pkg.Subtypes {
+			subtype.Name = strings.Title(subtype.Name)
+		}
+
 		for _, choice := range pkg.Choices {
+			choice.Name = strings.Title(choice.Name)
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -106,17 +103,11 @@ func (m *Model) CapitalizeNames() {
 				if choiceCase.Field != nil {
 					choiceCase.Field.ZserioName = choiceCase.Field.Name
 					choiceCase.Field.Name = strings.Title(choiceCase.Field.Name)
-					if !choiceCase.Field.Type.IsBuiltin {
-						choiceCase.Field.Type.Name = strings.Title(choiceCase.Field.Type.Name)
-					}
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
-				if !choice.DefaultCase.Field.Type.IsBuiltin {
-					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-				}
 			}
 			for _, function := range choice.Functions {
 				function.Name = strings.Title(function.Name)
@@ -192,11 +183,97 @@ func (m *Model) EvaluateChoices() error {
 	return nil
 }
 
+// instantiateFieldTypes instantiates all templates that are used by the fields
+// of a compound type.
+func (m *Model) instantiateFieldTypes(pkg *ast.Package, name string, fields []*ast.Field) error {
+	for _, field := range fields {
+		tt, err := m.instantiateType(
+			pkg,
+			field.Type,
+			field.Type.TemplateArguments,
+			"") // auto-generate a new name
+		if err != nil {
+			return TypeError{
+				TypeReference: ast.TypeReference{
+					IsBuiltin: false,
+					Package:   pkg.Name,
+					Name:      name,
+				},
+				Field: field.Name,
+				Err:   err,
+			}
+		}
+		field.Type = tt
+	}
+	return nil
+}
+
+// instantiateSignatures instantiates all templates that are used by the
+// parameters and functions of a compound type.
+func (m *Model) instantiateSignatures(pkg *ast.Package, name string, parameters []*ast.Parameter, functions []*ast.Function) error {
+	instantiate := func(symbol string, typ **ast.TypeReference) error {
+		tt, err := m.instantiateType(
+			pkg,
+			*typ,
+			(*typ).TemplateArguments,
+			"") // auto-generate a new name
+		if err != nil {
+			return TypeError{
+				TypeReference: ast.TypeReference{
+					IsBuiltin: false,
+					Package:   pkg.Name,
+					Name:      name,
+				},
+				Field: symbol,
+				Err:   err,
+			}
+		}
+		*typ = tt
+		return nil
+	}
+	for _, parameter := range parameters {
+		if err := instantiate(parameter.Name, &parameter.Type); err != nil {
+			return err
+		}
+	}
+	for _, function := range functions {
+		if err := instantiate(function.Name, &function.ReturnType); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// choiceFields returns all fields of a choice.
+func choiceFields(choice *ast.Choice) []*ast.Field {
+	var fields []*ast.Field
+	for _, choiceCase := range choice.Cases {
+		if choiceCase.Field != nil {
+			fields = append(fields, choiceCase.Field)
+		}
+	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		fields = append(fields, choice.DefaultCase.Field)
+	}
+	return fields
+}
+
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (m *Model) InstantiateTemplates() error {
 	var err error
-	for _, pkg := range m.Packages {
+	for _, packageName := range sortedKeys(m.Packages) {
+		pkg := m.Packages[packageName]
 		// Instantiate all template instantiation created with "instantiate" keyword
-		for _, instantiatedType := range pkg.InstantiatedTypes {
+		for _, name := range sortedKeys(pkg.InstantiatedTypes) {
+			instantiatedType := pkg.InstantiatedTypes[name]
 			if instantiatedType.Type, err = m.instantiateType(
 				pkg,
 				instantiatedType.Type,
@@ -215,7 +292,8 @@ func (m *Model) InstantiateTemplates() error {
 
 		// instantiate all templates that were created by using the "subtype", e.g.
 		// subtype TemplateType<int> InstantiatedSubtype;
-		for _, subtype := range pkg.Subtypes {
+		for _, name := range sortedKeys(pkg.Subtypes) {
+			subtype := pkg.Subtypes[name]
 			if subtype.Type, err = m.instantiateType(
 				pkg,
 				subtype.Type,
@@ -234,323 +312,247 @@ func (m *Model) InstantiateTemplates() error {
 			}
 		}
 
-		// Instantiate all structs that have template fields
-		for _, structure := range pkg.Structs {
-			// don't instantiate template structs
+		// Instantiate all templates that are used by compound types, which are not
+		// templates.
+		for _, name := range sortedKeys(pkg.Structs) {
+			structure := pkg.Structs[name]
 			if len(structure.TemplateParameters) > 0 {
 				continue
 			}
-			for _, field := range structure.Fields {
-				if field.Type, err = m.instantiateType(
-					pkg,
-					field.Type,
-					field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      structure.Name,
-						},
-						Field: field.Name,
-						Err:   err,
-					}
-				}
+			if err := m.instantiateSignatures(pkg, name, structure.TypeParameters, structure.Functions); err != nil {
+				return err
+			}
+			if err := m.instantiateFieldTypes(pkg, name, structure.Fields); err != nil {
+				return err
 			}
 		}
 
-		// instantiate all choices that have template fields
-		for _, choice := range pkg.Choices {
-			// don't instantiate template choices
+		for _, name := range sortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			if len(choice.TemplateParameters) > 0 {
 				continue
 			}
-			for _, choiceCase := range choice.Cases {
-				if choiceCase.Field == nil {
-					continue
-				}
-				if choiceCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choiceCase.Field.Type,
-					choiceCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choiceCase.Field.Name,
-						Err:   err,
-					}
-				}
+			if err := m.instantiateSignatures(pkg, name, choice.TypeParameters, choice.Functions); err != nil {
+				return err
 			}
-			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
-				if choice.DefaultCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choice.DefaultCase.Field.Type,
-					choice.DefaultCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choice.DefaultCase.Field.Name,
-						Err:   err,
-					}
-				}
+			if err := m.instantiateFieldTypes(pkg, name, choiceFields(choice)); err != nil {
+				return err
+			}
+		}
+
+		for _, name := range sortedKeys(pkg.Unions) {
+			union := pkg.Unions[name]
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			if err := m.instantiateSignatures(pkg, name, union.TypeParameters, union.Functions); err != nil {
+				return err
+			}
+			if err := m.instantiateFieldTypes(pkg, name, union.Fields); err != nil {
+				return err
 			}
 		}
 	}
 	return nil
 }
 
+// instantiateTypeReference replaces template parameters in a type reference of
+// a template by the types for which the template is instantiated. If the type
+// reference uses a template itself, it is instantiated as well.
+func (m *Model) instantiateTypeReference(pkgScope *ast.Package, typeRef *ast.TypeReference, templateTypes map[string]*ast.TypeReference) (*ast.TypeReference, error) {
+	typeRef = typeRef.Instantiate(templateTypes)
+	return m.instantiateType(pkgScope, typeRef, typeRef.TemplateArguments, "")
+}
+
 func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
-
-		// the template argument parameter must be recreated, as the
-		// field template arguments might differ from the struct template
-		// arguments. Example:
-		// struct<A, B, C> {
-		//    foo<int, C> field1;
-		//    bar<B, A> field2;
-		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
-			}
-		}
-
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
+	var err error
+	newField := field.Instantiate(templateTypes)
+	newField.Type, err = m.instantiateType(pkgScope, newField.Type, newField.Type.TemplateArguments, "")
+	return newField, err
+}
+
+func (m *Model) instantiateParameters(pkgScope *ast.Package, parameters []*ast.Parameter, templateTypes map[string]*ast.TypeReference) ([]*ast.Parameter, error) {
+	var newParameters []*ast.Parameter
+	for _, parameter := range parameters {
+		tt, err := m.instantiateTypeReference(pkgScope, parameter.Type, templateTypes)
 		if err != nil {
 			return nil, err
 		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
+		newParameters = append(newParameters, &ast.Parameter{
+			Name: parameter.Name,
+			Type: tt,
+		})
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	return newParameters, nil
+}
+
+func (m *Model) instantiateFunctions(pkgScope *ast.Package, functions []*ast.Function, templateTypes map[string]*ast.TypeReference) ([]*ast.Function, error) {
+	var newFunctions []*ast.Function
+	for _, function := range functions {
+		tt, err := m.instantiateTypeReference(pkgScope, function.ReturnType, templateTypes)
+		if err != nil {
+			return nil, err
+		}
+		newFunctions = append(newFunctions, &ast.Function{
+			Name:       function.Name,
+			Comment:    function.Comment,
+			Result:     function.Result.Instantiate(templateTypes),
+			ReturnType: tt,
+		})
 	}
-	// not templated
-	return field, nil
+	return newFunctions, nil
 }
 
-func (m *Model) instantiateStruct(
-	pkgScope *ast.Package,
-	templStruct *ast.Struct,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("struct instantiation called without parameters")
+func (m *Model) instantiateChoiceCase(pkgScope *ast.Package, choiceCase *ast.ChoiceCase, templateTypes map[string]*ast.TypeReference) (*ast.ChoiceCase, error) {
+	newChoiceCase := &ast.ChoiceCase{
+		Comment: choiceCase.Comment,
 	}
-	if len(templStruct.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+	for _, condition := range choiceCase.Conditions {
+		newChoiceCase.Conditions = append(newChoiceCase.Conditions, &ast.ChoiceCaseExpression{
+			Condition: condition.Condition.Instantiate(templateTypes),
+			Comment:   condition.Comment,
+		})
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+	if choiceCase.Field != nil {
+		newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
 		if err != nil {
 			return nil, err
 		}
-		templateTypes[templStruct.TemplateParameters[ix]] = ta
+		newChoiceCase.Field = newField
 	}
+	return newChoiceCase, nil
+}
 
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
-	}
-	// check if the struct was already instantiated
-	if _, exists := pkgScope.Structs[newType.Name]; exists {
-		return newType, nil
-	}
+func (m *Model) instantiateStruct(pkgScope *ast.Package, templStruct *ast.Struct, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+	var err error
 	structure := &ast.Struct{
-		Name:    newType.Name,
+		Name:    instantiatedName,
 		Comment: templStruct.Comment,
 	}
+	// update the scope with the newly created type
+	pkgScope.Structs[structure.Name] = structure
+	pkgScope.LocalSymbols.TypeScope[structure.Name] = structure
 
 	// resolve the templates for the fields
 	for _, field := range templStruct.Fields {
 		newField, err := m.instantiateField(pkgScope, field, templateTypes)
 		if err != nil {
-			return nil, err
+			return err
 		}
 		structure.Fields = append(structure.Fields, newField)
 	}
-
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
-		}
+	if structure.TypeParameters, err = m.instantiateParameters(pkgScope, templStruct.TypeParameters, templateTypes); err != nil {
+		return err
 	}
-
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
-		}
+	if structure.Functions, err = m.instantiateFunctions(pkgScope, templStruct.Functions, templateTypes); err != nil {
+		return err
 	}
-
-	// update the scope with the newly created scope
-	pkgScope.Structs[newType.Name] = structure
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = structure
-	structure.BuildScope(pkgScope)
-	return newType, nil
+	return structure.BuildScope(pkgScope)
 }
 
-func (m *Model) instantiateChoice(
-	pkgScope *ast.Package,
-	templChoice *ast.Choice,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("choice instantiation called without parameters")
-	}
-	if len(templChoice.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+func (m *Model) instantiateUnion(pkgScope *ast.Package, templUnion *ast.Union, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+	var err error
+	union := &ast.Union{
+		Name:    instantiatedName,
+		Comment: templUnion.Comment,
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+	// update the scope with the newly created type
+	pkgScope.Unions[union.Name] = union
+	pkgScope.LocalSymbols.TypeScope[union.Name] = union
+
+	// resolve the templates for the fields
+	for _, field := range templUnion.Fields {
+		newField, err := m.instantiateField(pkgScope, field, templateTypes)
 		if err != nil {
-			return nil, err
+			return err
 		}
-		templateTypes[templChoice.TemplateParameters[ix]] = ta
+		union.Fields = append(union.Fields, newField)
 	}
-
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+	if union.TypeParameters, err = m.instantiateParameters(pkgScope, templUnion.TypeParameters, templateTypes); err != nil {
+		return err
 	}
-
-	// check if the type was already instantiated
-	if _, exists := pkgScope.Choices[newType.Name]; exists {
-		return newType, nil
+	if union.Functions, err = m.instantiateFunctions(pkgScope, templUnion.Functions, templateTypes); err != nil {
+		return err
 	}
+	return union.BuildScope(pkgScope)
+}
+
+func (m *Model) instantiateChoice(pkgScope *ast.Package, templChoice *ast.Choice, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+	var err error
 	choice := &ast.Choice{
-		Name:               newType.Name,
+		Name:               instantiatedName,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		SelectorExpression: templChoice.SelectorExpression.Instantiate(templateTypes),
 	}
+	// update the scope with the newly created type
+	pkgScope.Choices[choice.Name] = choice
+	pkgScope.LocalSymbols.TypeScope[choice.Name] = choice
 
 	// resolve the templates for the choices
 	for _, choiceCase := range templChoice.Cases {
-		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
-		}
-		if choiceCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			newChoiceCase.Field = newField
+		newChoiceCase, err := m.instantiateChoiceCase(pkgScope, choiceCase, templateTypes)
+		if err != nil {
+			return err
 		}
 		choice.Cases = append(choice.Cases, newChoiceCase)
 	}
-
 	// also resolve the default case
 	if templChoice.DefaultCase != nil {
-		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
-			Comment:    templChoice.DefaultCase.Comment,
-		}
-		if templChoice.DefaultCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, templChoice.DefaultCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			choice.DefaultCase.Field = newField
+		if choice.DefaultCase, err = m.instantiateChoiceCase(pkgScope, templChoice.DefaultCase, templateTypes); err != nil {
+			return err
 		}
-
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
-		}
+	if choice.TypeParameters, err = m.instantiateParameters(pkgScope, templChoice.TypeParameters, templateTypes); err != nil {
+		return err
 	}
-
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
-		}
+	if choice.Functions, err = m.instantiateFunctions(pkgScope, templChoice.Functions, templateTypes); err != nil {
+		return err
 	}
-
-	// update the scope with the newly created scope
-	pkgScope.Choices[newType.Name] = choice
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = choice
-	choice.BuildScope(pkgScope)
-	return newType, nil
+	return choice.BuildScope(pkgScope)
 }
 
 func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
 	name := []string{strings.Title(tr.Name)}
 	for _, ta := range templateArguments {
-		name = append(name, strings.Title(ta.Name))
+		argumentName := strings.Title(ta.Name)
+		if ta.Bits != 0 {
+			argumentName = fmt.Sprintf("%s%d", argumentName, ta.Bits)
+		}
+		name = append(name, argumentName)
 	}
 	return strings.Join(name, "")
 }
 
+// instantiationKey describes a template and all of its arguments.
+func instantiationKey(pkgName string, tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
+	key := []string{fmt.Sprintf("%s.%s", pkgName, tr.Name)}
+	for _, ta := range templateArguments {
+		key = append(key, fmt.Sprintf("%s.%s:%d", ta.Package, ta.Name, ta.Bits))
+	}
+	return strings.Join(key, ",")
+}
+
+// maxInstantiationDepth limits the number of templates that use each other.
+const maxInstantiationDepth = 100
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
 		return tr, nil
 	}
+	if m.instantiationDepth++; m.instantiationDepth > maxInstantiationDepth {
+		return nil, ErrRecursiveTemplate
+	}
+	defer func() { m.instantiationDepth-- }()
+
+	// The arguments of a template might be templates as well
+	templateArguments = append([]*ast.TypeReference{}, templateArguments...)
+	for ix, ta := range templateArguments {
+		tt, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+		if err != nil {
+			return nil, err
+		}
+		templateArguments[ix] = tt
+	}
 
 	if instantiatedName == "" {
 		// No explicit name  for the new instantiated object was given.
@@ -560,27 +562,78 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		instantiatedName = generateInstantiatedName(tr, templateArguments)
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
+	templateScope := pkgScope
+	if tr.Package != "" {
+		templatePackage, found := m.Packages[tr.Package]
+		if !found {
+			return nil, UnknownPackage{tr.Package}
+		}
+		templateScope = templatePackage
+	}
+	templateSymbol, err := templateScope.GetType(tr.Name)
 	if err != nil {
 		return nil, err
 	}
-	var instantiatedType *ast.TypeReference
 
+	var templateParameters []string
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
-		instantiatedType, err = m.instantiateStruct(pkgScope, n, templateArguments, instantiatedName)
+		templateParameters = n.TemplateParameters
 	case *ast.Choice:
-		instantiatedType, err = m.instantiateChoice(pkgScope, n, templateArguments, instantiatedName)
+		templateParameters = n.TemplateParameters
+	case *ast.Union:
+		templateParameters = n.TemplateParameters
 	default:
 		return nil, errors.New("template instantiation not supported for this type")
 	}
+	if len(templateParameters) != len(templateArguments) {
+		return nil, ErrIncorrectNumberOfTemplateParameters
+	}
+	// templateTypes is a map from the template parameter name to the instantiated
+	// type.
+	templateTypes := map[string]*ast.TypeReference{}
+	for ix, ta := range templateArguments {
+		templateTypes[templateParameters[ix]] = ta
+	}
+
+	instantiatedType := &ast.TypeReference{
+		IsBuiltin: false,
+		Package:   pkgScope.Name,
+		Name:      instantiatedName,
+		// Link the argument expressions from the template type to the instantiation
+		TypeArguments: tr.TypeArguments,
+	}
 
+	// check if the type was already instantiated
+	fullName := fmt.Sprintf("%s.%s", pkgScope.Name, instantiatedName)
+	key := instantiationKey(templateSymbol.Package, tr, templateArguments)
+	if existingKey, exists := m.instantiations[fullName]; exists {
+		if existingKey != key {
+			return nil, fmt.Errorf("%w: %s", ErrInstantiationNameConflict, instantiatedName)
+		}
+		return instantiatedType, nil
+	}
+	if existing, found := pkgScope.LocalSymbols.TypeScope[instantiatedName]; found {
+		if _, isInstantiation := existing.(*ast.InstantiateType); !isInstantiation {
+			return nil, fmt.Errorf("%w: %s", ErrInstantiationNameConflict, instantiatedName)
+		}
+	}
+	if m.instantiations == nil {
+		m.instantiations = map[string]string{}
+	}
+	m.instantiations[fullName] = key
+
+	switch n := templateSymbol.Symbol.(type) {
+	case *ast.Struct:
+		err = m.instantiateStruct(pkgScope, n, templateTypes, instantiatedName)
+	case *ast.Choice:
+		err = m.instantiateChoice(pkgScope, n, templateTypes, instantiatedName)
+	case *ast.Union:
+		err = m.instantiateUnion(pkgScope, n, templateTypes, instantiatedName)
+	}
 	if err != nil {
 		return nil, err
 	}
-
-	// Link the argument expressions from the template type to the instantiation
-	instantiatedType.TypeArguments = tr.TypeArguments
 	return instantiatedType, nil
 }
 
-- 
2.43.0


From 27ca31eb98d284e40818a1388196b9dacb78e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 27/66] fix: refuse to write values that do not fit their type
 as packed deltas

The delta of an element was written without looking at the range of its
type, so that a varint or bit field element out of range was encoded in a
packed array, although it is refused everywhere else.
---
 ztype/delta_context.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 96254b1..8c72ce8 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -30,6 +30,18 @@ type DeltaContext[T any] struct {
 	processingStarted bool
 }
 
+// discardWriter is a zserio.Writer that drops everything written to it.
+type discardWriter struct{}
+
+var _ zserio.Writer = discardWriter{}
+
+func (discardWriter) Write(p []byte) (int, error)         { return len(p), nil }
+func (discardWriter) WriteByte(byte) error                { return nil }
+func (discardWriter) Align(uint8) (int64, error)          { return 0, nil }
+func (discardWriter) WriteBool(bool) error                { return nil }
+func (discardWriter) WriteBits(uint64, uint8) error       { return nil }
+func (discardWriter) WriteBitsUnsafe(uint64, uint8) error { return nil }
+
 // arrayTraitsBitsizeOf returns the bit size of an array element.
 func arrayTraitsBitsizeOf[T any](arrayTraits IArrayTraits[T], bitPosition int, element T) int {
 	return arrayTraits.BitSizeOf(element, bitPosition)
@@ -136,6 +148,11 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
 	if context.maxBitNumber > 0 {
+		// A delta says nothing about the range of the element type, therefore
+		// check that the element itself can be written.
+		if err := arrayTraits.Write(discardWriter{}, element); err != nil {
+			return err
+		}
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
 		if err != nil {
-- 
2.43.0


From ecdcfe0572a0a7382f5af945717d33a93c955a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 28/66] fix: drop what an earlier value left in a decoded
 object

Decoding into an object that held another value left the fields that the
new value does not have (fields with an unmet condition, the other branches
of unions and choices) as they were.
---
 internal/generator/templates/choice.go.tmpl          | 12 ++++++++++++
 internal/generator/templates/decode.go.tmpl          |  3 +++
 .../templates/packing_context_decode.go.tmpl         |  3 +++
 internal/generator/templates/union.go.tmpl           | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 3888c88..c12867c 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -61,6 +61,12 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
+  // drop what an earlier value may have left in the other fields
+  *v = {{ $choice.Name }}{
+{{- range $param := $choice.TypeParameters }}
+  {{ .Name }}: v.{{ .Name }},
+{{- end }}
+}
   switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
   case {{ goChoiceCase $case }}:
@@ -148,6 +154,12 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
 {{- if $choice.Cases }}
     var err error
+    // drop what an earlier value may have left in the other fields
+    *v = {{ $choice.Name }}{
+{{- range $param := $choice.TypeParameters }}
+  {{ .Name }}: v.{{ .Name }},
+{{- end }}
+}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
     switch ({{ goExpression $scope $expr }}) {
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 6dde2f3..f6bf85f 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -101,5 +101,8 @@
 {{- end }}
 
 {{- if $field.OptionalClause }}
+} else {
+    // drop what an earlier value may have left in the field
+    v.{{ $field.Name }} = *new({{ if $field.IsOptional }}*{{ end }}{{ if $field.Array }}[]{{ end }}{{ goType $scope $field.Type }})
 }
 {{- end }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 1fec39d..0e364fe 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -118,5 +118,8 @@
 {{- end }}
 
 {{- if $field.OptionalClause }}
+} else {
+    // drop what an earlier value may have left in the field
+    v.{{ $field.Name }} = *new({{ if $field.IsOptional }}*{{ end }}{{ if $field.Array }}[]{{ end }}{{ goType $scope $field.Type }})
 }
 {{- end }}
diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 7e59bc6..3c7dbb8 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -58,6 +58,12 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if unionChoice >= {{ len $union.Fields }} {
       return fmt.Errorf("{{ $union.Name }} has no field for choice tag %d", unionChoice)
     }
+    // drop what an earlier value may have left in the other fields
+    *v = {{ $union.Name }}{
+{{- range $param := $union.TypeParameters }}
+  {{ .Name }}: v.{{ .Name }},
+{{- end }}
+}
     v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice) + 1
 
 {{- range $field := $union.Fields }}
@@ -130,6 +136,12 @@ func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCont
     if unionChoice >= {{ len $union.Fields }} {
       return fmt.Errorf("{{ $union.Name }} has no field for choice tag %d", unionChoice)
     }
+    // drop what an earlier value may have left in the other fields
+    *v = {{ $union.Name }}{
+{{- range $param := $union.TypeParameters }}
+  {{ .Name }}: v.{{ .Name }},
+{{- end }}
+}
     v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice) + 1
 {{- range $index, $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
-- 
2.43.0


From 51c4be19a3c36fed6c69aaac83a3bfcab7feb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 29/66] fix: report runtime errors in schema expressions as
 errors; do not wrap bit field widths

An array index out of range, a division by zero or an optional field that
is not set in a condition, length or argument made encoding and decoding
panic, for decoding with nothing but the input at fault. The width of
bit<expression> was cut to eight bits.
---
 internal/generator/funcs.go                   | 55 +++++++++++++++++++
 internal/generator/templates.go               |  1 +
 internal/generator/templates/choice.go.tmpl   | 35 +++++++++---
 internal/generator/templates/decode.go.tmpl   |  2 +-
 internal/generator/templates/encode.go.tmpl   |  2 +-
 .../instantiate_array_traits.go.tmpl          |  2 +-
 .../templates/packing_context_decode.go.tmpl  |  2 +-
 .../templates/packing_context_encode.go.tmpl  |  2 +-
 internal/generator/templates/struct.go.tmpl   | 35 +++++++++---
 internal/generator/templates/union.go.tmpl    | 35 +++++++++---
 ztype/BUILD.bazel                             |  1 +
 ztype/expression.go                           | 33 +++++++++++
 12 files changed, 179 insertions(+), 26 deletions(-)
 create mode 100644 ztype/expression.go

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index 4ba90b0..bdc90a2 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -125,3 +125,58 @@ func HasIndexOperators(typeRef *ast.TypeReference) bool {
 	}
 	return false
 }
+
+// MayFail returns true if evaluating an expression used by a compound type may
+// raise a runtime error, for example because of an array index out of range, a
+// division by zero, or because an optional field is not set.
+func MayFail(scope *ast.Package, symbol any) bool {
+	var expressions []*ast.Expression
+	addField := func(field *ast.Field) {
+		if field == nil {
+			return
+		}
+		expressions = append(expressions, field.OptionalClause, field.Type.LengthExpression)
+		expressions = append(expressions, field.Type.TypeArguments...)
+		if field.Array != nil {
+			expressions = append(expressions, field.Array.Length)
+		}
+		if native, err := GoNativeType(scope, field.Type); err == nil {
+			expressions = append(expressions, native.Type.LengthExpression)
+		}
+	}
+
+	switch n := symbol.(type) {
+	case *ast.Struct:
+		for _, field := range n.Fields {
+			addField(field)
+		}
+	case *ast.Union:
+		for _, field := range n.Fields {
+			addField(field)
+		}
+	case *ast.Choice:
+		expressions = append(expressions, n.SelectorExpression)
+		for _, choiceCase := range n.Cases {
+			for _, condition := range choiceCase.Conditions {
+				expressions = append(expressions, condition.Condition)
+			}
+			addField(choiceCase.Field)
+		}
+		if n.DefaultCase != nil {
+			addField(n.DefaultCase.Field)
+		}
+	}
+
+	for _, expression := range expressions {
+		if expression == nil {
+			continue
+		}
+		text := GoExpression(scope, expression)
+		for _, operation := range []string{"[", "/", "%", "<<", ">>", "(*", "()"} {
+			if strings.Contains(text, operation) {
+				return true
+			}
+		}
+	}
+	return false
+}
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index cc1e051..1775ce9 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -28,6 +28,7 @@ func init() {
 		"goNativeType":      GoNativeType,
 		"add":               Add,
 		"hasIndexOperators": HasIndexOperators,
+		"mayFail":           MayFail,
 	}
 
 	templates, err = template.New("generator").Funcs(sprig.TxtFuncMap()).Funcs(template.FuncMap(funcs)).ParseFS(content, "templates/*.go.tmpl")
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index c12867c..2b9d817 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -34,7 +34,10 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 }
 
 // MarshalZserio implements the zserio.Marshaler interface.
-func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
+func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   var err error
   switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
@@ -59,7 +62,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 }
 
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
-func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
+func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
     var err error
   // drop what an earlier value may have left in the other fields
   *v = {{ $choice.Name }}{
@@ -92,7 +98,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 {{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
 
 // ZserioBitSize implements the zserio.Marshaler interface.
-func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
+func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   endBitPosition := bitPosition
   switch ({{ goExpression $scope $expr }}) {
 {{- range $case := $choice.Cases }}
@@ -125,7 +134,10 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
   return nil
 }
 
-func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
+func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) (resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $choice.Cases }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
@@ -151,7 +163,10 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
   return nil
 }
 
-func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $choice.Cases }}
     var err error
     // drop what an earlier value may have left in the other fields
@@ -185,7 +200,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
     return nil
 }
 
-func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $choice.Cases }}
     var err error
     childrenNodes := contextNode.GetChildren()
@@ -217,7 +235,10 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
   return 0
 }
 
-func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
+func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $choice }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   endBitPosition := bitPosition
 {{- if $choice.Cases }}
   childrenNodes := contextNode.GetChildren()
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index f6bf85f..22c427e 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 0d74323..c4fca67 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/instantiate_array_traits.go.tmpl b/internal/generator/templates/instantiate_array_traits.go.tmpl
index a76fcdf..24b4562 100644
--- a/internal/generator/templates/instantiate_array_traits.go.tmpl
+++ b/internal/generator/templates/instantiate_array_traits.go.tmpl
@@ -5,7 +5,7 @@
     {{- if gt $type.Bits 0 -}}
         ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- $type.Bits }}))
     {{- else if $type.LengthExpression -}}
-        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- goExpression $scope $type.LengthExpression }}))
+        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](ztype.BitWidth({{- goExpression $scope $type.LengthExpression }}))
     {{- else if eq $type.Name "uint8" }}ztype.ArrayTraits.UInt8
     {{- else if eq $type.Name "uint16" }}ztype.ArrayTraits.UInt16
     {{- else if eq $type.Name "uint32" }}ztype.ArrayTraits.UInt32
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 0e364fe..6f0b36a 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9b497e2..0158871 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitWidth(%s)" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/struct.go.tmpl b/internal/generator/templates/struct.go.tmpl
index 2ee8d85..85af67f 100644
--- a/internal/generator/templates/struct.go.tmpl
+++ b/internal/generator/templates/struct.go.tmpl
@@ -19,7 +19,10 @@ func (v *{{ $struct.Name}}) LoadDefaultValues() error {
 }
 
 // MarshalZserio implements the zserio.Marshaler interface.
-func (v *{{ $struct.Name}}) MarshalZserio(w zserio.Writer) error {
+func (v *{{ $struct.Name}}) MarshalZserio(w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $struct.Fields }}
     var err error
 {{- range $field := $struct.Fields }}
@@ -31,7 +34,10 @@ func (v *{{ $struct.Name}}) MarshalZserio(w zserio.Writer) error {
 }
 
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
-func (v *{{ $struct.Name}}) UnmarshalZserio(r zserio.Reader) error {
+func (v *{{ $struct.Name}}) UnmarshalZserio(r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $struct.Fields }}
     var err error
 {{- range $field := $struct.Fields }}
@@ -45,7 +51,10 @@ func (v *{{ $struct.Name}}) UnmarshalZserio(r zserio.Reader) error {
 {{template "functions.go.tmpl" dict "name" $struct.Name "scope" $scope "functions" $struct.Functions }}
 
 // ZserioBitSize implements the zserio.Marshaler interface.
-func (v *{{ $struct.Name}}) ZserioBitSize(bitPosition int) (int, error) {
+func (v *{{ $struct.Name}}) ZserioBitSize(bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   endBitPosition := bitPosition
 {{- range $index, $field := $struct.Fields }}
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
@@ -61,7 +70,10 @@ func (v *{{ $struct.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
   return nil
 }
 
-func (v *{{ $struct.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
+func (v *{{ $struct.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) (resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
 {{- range $index, $field := $struct.Fields }}
@@ -71,7 +83,10 @@ func (v *{{ $struct.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 }
 
 
-func (v *{{ $struct.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+func (v *{{ $struct.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $struct.Fields }}
     var err error
     childrenNodes := contextNode.GetChildren()
@@ -85,7 +100,10 @@ func (v *{{ $struct.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
 }
 
 
-func (v *{{ $struct.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+func (v *{{ $struct.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
 {{- if $struct.Fields }}
     var err error
     childrenNodes := contextNode.GetChildren()
@@ -102,7 +120,10 @@ func (v *{{ $struct.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
   return 0
 }
 
-func (v *{{ $struct.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
+func (v *{{ $struct.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $struct }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   endBitPosition := bitPosition
 {{- if $struct.Fields }}
   childrenNodes := contextNode.GetChildren()
diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 3c7dbb8..50427f1 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -32,7 +32,10 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 }
 
 // MarshalZserio implements the zserio.Marshaler interface.
-func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
     return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
   }
@@ -50,7 +53,10 @@ func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
 }
 
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
-func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
+func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
     unionChoice, err := ztype.ReadVarsize(r)
     if err != nil {
        return err
@@ -77,7 +83,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 {{template "functions.go.tmpl" dict "name" $union.Name "scope" $scope "functions" $union.Functions }}
 
 // ZserioBitSize implements the zserio.Marshaler interface.
-func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
+func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
     return 0, fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
   }
@@ -105,7 +114,10 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
   return nil
 }
 
-func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
+func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) (resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
     if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
       return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
     }
@@ -123,7 +135,10 @@ func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingC
   return nil
 }
 
-func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) (resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
     childrenNodes := contextNode.GetChildren()
     choiceTagContext, ok := childrenNodes[0].Context.(*ztype.DeltaContext[uint64])
     if !ok {
@@ -152,7 +167,10 @@ func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCont
 }
 
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) (resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
     return fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
   }
@@ -177,7 +195,10 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
   return 0
 }
 
-func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
+func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (_ int, resultErr error) {
+{{- if mayFail $scope $union }}
+    defer ztype.RecoverExpressionError(&resultErr)
+{{- end }}
   if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
     return 0, fmt.Errorf("{{ $union.Name }} has no field for union choice %d", v.UnionChoice)
   }
diff --git a/ztype/BUILD.bazel b/ztype/BUILD.bazel
index 935527f..f221105 100644
--- a/ztype/BUILD.bazel
+++ b/ztype/BUILD.bazel
@@ -17,6 +17,7 @@ go_library(
         "bytes_encode.go",
         "delta_context.go",
         "doc.go",
+        "expression.go",
         "extern.go",
         "extern_decode.go",
         "extern_encode.go",
diff --git a/ztype/expression.go b/ztype/expression.go
new file mode 100644
index 0000000..944ddda
--- /dev/null
+++ b/ztype/expression.go
@@ -0,0 +1,33 @@
+package ztype
+
+import (
+	"fmt"
+	"math"
+	"runtime"
+
+	"golang.org/x/exp/constraints"
+)
+
+// RecoverExpressionError is deferred by the generated code of types that use
+// expressions, to report a runtime error in one of them (such as an array index
+// out of range, a division by zero, or the use of a field that is not set) as
+// an error.
+func RecoverExpressionError(err *error) {
+	if r := recover(); r != nil {
+		runtimeErr, ok := r.(runtime.Error)
+		if !ok {
+			panic(r)
+		}
+		*err = fmt.Errorf("evaluate expression: %w", runtimeErr)
+	}
+}
+
+// BitWidth converts the value of the length expression of a bit field to the
+// number of bits. A width that no bit field can have is not truncated, but leads
+// to a width that is refused when reading or writing.
+func BitWidth[T constraints.Integer](width T) uint8 {
+	if width <= 0 || uint64(width) > math.MaxUint8 {
+		return math.MaxUint8
+	}
+	return uint8(width)
+}
-- 
2.43.0


From 22793be21509bd9865935053c998a4df913daae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 30/66] fix: refuse to read or write more than 64 bits at once,
 and read no bits for a width of 0

---
 zstream/reader.go | 17 ++++++++++++++++-
 zstream/writer.go |  9 ++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/zstream/reader.go b/zstream/reader.go
index 530421d..af799fc 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -1,12 +1,20 @@
 package zstream
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
 	"github.com/icza/bitio"
 )
 
+// maxBits is the number of bits that can be read or written at once.
+const maxBits = 64
+
+// ErrTooManyBits is returned for requests to read or write more than 64 bits
+// at once.
+var ErrTooManyBits = errors.New("too many bits")
+
 // Reader is the input to our BitReader.
 type Reader interface {
 	io.Reader
@@ -37,8 +45,15 @@ func (r *BitReader) ReadByte() (byte, error) {
 	return r.reader.ReadByte()
 }
 
-// ReadBits reads n bits and returns them as the lowest n bits of u.
+// ReadBits reads n bits and returns them as the lowest n bits of u. No more
+// than 64 bits can be read at once.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		return 0, nil
+	}
+	if n > maxBits {
+		return 0, fmt.Errorf("%w: %d", ErrTooManyBits, n)
+	}
 	return r.reader.ReadBits(n)
 }
 
diff --git a/zstream/writer.go b/zstream/writer.go
index ff5048c..8012698 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -42,8 +42,12 @@ func (w *BitWriter) Write(b []byte) (int, error) {
 	return w.writer.Write(b)
 }
 
-// WriteBits writes out the n lowest bits of r.
+// WriteBits writes out the n lowest bits of r. No more than 64 bits can be
+// written at once.
 func (w *BitWriter) WriteBits(r uint64, n uint8) error {
+	if n > maxBits {
+		return fmt.Errorf("%w: %d", ErrTooManyBits, n)
+	}
 	return w.writer.WriteBits(r, n)
 }
 
@@ -53,6 +57,9 @@ func (w *BitWriter) WriteBits(r uint64, n uint8) error {
 // the input r is not masked. Calling WriteBitsUnsafe() with an r that does
 // not satisfy this is undefined behavior (might corrupt previously written bits).
 func (w *BitWriter) WriteBitsUnsafe(r uint64, n uint8) error {
+	if n > maxBits {
+		return fmt.Errorf("%w: %d", ErrTooManyBits, n)
+	}
 	return w.writer.WriteBitsUnsafe(r, n)
 }
 
-- 
2.43.0


From 0d5fe2d36f2368140e085a46d5b91e7088b20497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 31/66] fix: load initial values of enum, bitmask and optional
 fields

---
 .../generator/templates/default_values.go.tmpl   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..4795c3b 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -11,14 +11,18 @@
     {{- end }}
 {{- end }}
 
-{{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+{{- if not $field.Array }}
+    {{- if $field.Initializer }}
+        {{- $value := printf "%s(%s)" (goType $scope $field.Type) (goExpression $scope $field.Initializer) }}
+        {{- if $field.IsOptional }}
+            v.{{ $field.Name }} = new({{ goType $scope $field.Type }})
+            *v.{{ $field.Name }} = {{ $value }}
+        {{- else }}
+            v.{{ $field.Name }} = {{ $value }}
+        {{- end }}
+    {{- else if and $native.IsMarshaler (not $field.IsOptional) }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-    {{- else if not $field.Array }}
-        {{- if $field.Initializer }}
-        {{- $field_name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
-        {{- end }}
     {{- end }}
 {{- end }}
-- 
2.43.0


From 230eb51c31f7d7ff750cddbe71825af30d34ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 32/66] fix: keep the schema names of enum items in their text
 form

---
 internal/model/transform.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 86892f5..9e3dcc3 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -48,10 +48,6 @@ func (m *Model) CapitalizeNames() {
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-
-			for _, item := range e.Items {
-				item.Name = strings.Title(item.Name)
-			}
 		}
 
 		for _, u := range pkg.Unions {
-- 
2.43.0


From a6c6e6b64efdbd056f297b0fefa44fc0406acde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 33/66] fix: convert to pointer types of extern and bytes
 subtypes

A field, array element or packed field whose type is a subtype of extern
or bytes made the generated code convert with *ztype.ExternType(v), which
does not compile. Parenthesise the type.
---
 internal/generator/templates/bitsizeof.go.tmpl              | 4 ++--
 internal/generator/templates/decode.go.tmpl                 | 2 +-
 internal/generator/templates/encode.go.tmpl                 | 4 ++--
 .../generator/templates/packing_context_bitsize.go.tmpl     | 4 ++--
 internal/generator/templates/packing_context_decode.go.tmpl | 2 +-
 internal/generator/templates/packing_context_encode.go.tmpl | 6 +++---
 internal/generator/templates/packing_context_init.go.tmpl   | 2 +-
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 0a0fb99..e8d4972 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -12,7 +12,7 @@
             {{- $name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $name = printf "%s(%s)" (goType $scope $native.Type) $name }}
+        {{- $name = printf "(%s)(%s)" (goType $scope $native.Type) $name }}
     {{- end }}
 {{- end }}
 
@@ -39,7 +39,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 22c427e..1be9ce7 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index c4fca67..e1fc56f 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -16,7 +16,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -53,7 +53,7 @@
         {{- else if $native.RequiresCast }}
             {{ $field.Name }}ArrayProperties.RawArray = make([]{{ goType $scope $native.Type }}, 0, {{ $field.Name }}ArrayProperties.FixedSize)
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 881b8fc..552cb60 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -14,7 +14,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -44,7 +44,7 @@
         }
         {{- else if $native.RequiresCast }}
         for _, element := range {{ $field_name }} {
-            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+            {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
         }
         {{- else }}
         {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 6f0b36a..640780a 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 0158871..ecded5c 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -17,7 +17,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
@@ -65,7 +65,7 @@
             }
         {{- else if $native.RequiresCast }}
             for _, element := range {{ $field_name }} {
-                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
+                {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, ({{ goType $scope $native.Type }})(element))
             }
         {{- else }}
             {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
@@ -91,7 +91,7 @@
     }
 
 {{- else }}
-    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}{{ goType $scope $native.Type }}({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
+    if err := ztype.Write{{ title $native.Type.Name }}(w, {{ if $native.RequiresCast }}({{ goType $scope $native.Type }})({{end}}{{ $field_name }}{{ if $native.RequiresCast }}){{end}}); err != nil {
         return err
     } 
 
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 8fee3a2..3968616 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -13,7 +13,7 @@
             {{- $field_name = printf "(*%s)(v.%s)" (goType $scope $native.Type) $field.Name }}
         {{- end }}
     {{- else }}
-        {{- $field_name = printf "%s(%s)" (goType $scope $native.Type) $field_name }}
+        {{- $field_name = printf "(%s)(%s)" (goType $scope $native.Type) $field_name }}
     {{- end }}
 {{- end }}
 
-- 
2.43.0


From ef3865eb116683827793557e137f37a7f3959239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 34/66] fix: remove unused imports by syntax, and also from
 unformatted files

Unused imports were found by searching for their name in the text: a
comment or another identifier that ends in the name kept them, and the
file did not compile. Unformatted files kept all of them.
---
 internal/generator/gen.go           | 11 ++--
 internal/generator/strip_imports.go | 86 +++++++++++++++--------------
 2 files changed, 50 insertions(+), 47 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..e12a360 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -165,6 +165,12 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
+	code, err := StripImports(code)
+	if err != nil {
+		log.Println(string(code))
+		return fmt.Errorf("strip imports: %w", err)
+	}
+
 	if doNotFormatCode {
 		if _, err := w.Write(code); err != nil {
 			return fmt.Errorf("write: %w", err)
@@ -172,11 +178,6 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 		return nil
 	}
 
-	code, err := StripImports(code)
-	if err != nil {
-		return fmt.Errorf("strip imports: %w", err)
-	}
-
 	formatted, err := format.Source(code)
 	if err != nil {
 		log.Println(string(code))
diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..6028f17 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,58 +1,60 @@
 package generator
 
 import (
-	"strings"
+	"bytes"
+	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
+	"path"
+	"strconv"
 )
 
-// StripImports searches a *.go file for the import section, and checks if the
-// imports are used.
+// StripImports searches a *.go file for the import section, and removes the
+// imports that are not used.
 func StripImports(code []byte) ([]byte, error) {
-	content := string(code)
-
-	// sarch the import section
-	importKey := "import ("
-	importIndex := strings.Index(content, importKey)
-	if importIndex < 0 {
-		// this file either has only one import, or no imports at all. The zserio
-		// code generator always generated a full import block, so this behavior
-		// can be accepted.
-		return code, nil
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", code, 0)
+	if err != nil {
+		return code, fmt.Errorf("parse: %w", err)
 	}
-	// extract the import section
-	prefix := content[0 : importIndex+len(importKey)]
-	content = content[importIndex+len(importKey):]
-	importEndIndex := strings.Index(content, ")")
-	importSection := content[0:importEndIndex]
-	content = content[importEndIndex:]
-	imports := strings.Split(importSection, "\n")
 
-	// Extract the last name of the import line, search in the code if it is used,
-	// and delete the import if it cannot be found.
-	usedImports := []string{}
-	for _, currentImport := range imports {
-		line := strings.TrimSpace(currentImport)
-		if len(line) < 3 {
-			continue
+	// Packages are never declared in the file itself, so that all usages of them
+	// are among the unresolved identifiers.
+	unresolved := make(map[*ast.Ident]bool, len(file.Unresolved))
+	for _, ident := range file.Unresolved {
+		unresolved[ident] = true
+	}
+	used := make(map[string]bool)
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok {
+			if ident, ok := selector.X.(*ast.Ident); ok && unresolved[ident] {
+				used[ident.Name] = true
+			}
 		}
+		return true
+	})
+
+	var stripped bytes.Buffer
+	end := 0
+	for _, spec := range file.Imports {
 		importName := ""
-		if strings.Contains(line, " ") {
-			// this string uses an alias
-			importName = strings.Split(line, " ")[0]
+		if spec.Name != nil {
+			// this import uses an alias
+			importName = spec.Name.Name
 		} else {
-			lastSeparator := strings.LastIndex(line, "/")
-			if lastSeparator < 0 {
-				// The import name does not contain any slashes, it must be a
-				// internal module, such as "errors"
-				importName = line[1 : len(line)-1]
-			} else {
-				importName = line[lastSeparator+1 : len(line)-1]
+			importPath, err := strconv.Unquote(spec.Path.Value)
+			if err != nil {
+				return nil, fmt.Errorf("import %s: %w", spec.Path.Value, err)
 			}
+			importName = path.Base(importPath)
 		}
-		if strings.Contains(content, importName+".") {
-			usedImports = append(usedImports, currentImport)
+		if used[importName] {
+			continue
 		}
+		stripped.Write(bytes.TrimRight(code[end:fset.Position(spec.Pos()).Offset], " \t\r\n"))
+		end = fset.Position(spec.End()).Offset
 	}
-	importSection = strings.Join(usedImports, "\n")
-	return []byte(prefix + importSection + content), nil
-
+	stripped.Write(code[end:])
+	return stripped.Bytes(), nil
 }
-- 
2.43.0


From 58736467ab1dd7624a736bff060820552a766bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 35/66] fix: return extern and bytes values from functions

The conversion to the pointer type of the result was not parenthesised.
---
 internal/generator/templates/functions.go.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/templates/functions.go.tmpl b/internal/generator/templates/functions.go.tmpl
index 019e242..d933c85 100644
--- a/internal/generator/templates/functions.go.tmpl
+++ b/internal/generator/templates/functions.go.tmpl
@@ -3,6 +3,6 @@
 {{- $functions := .functions }}
 {{- range $function := $functions }}
 func (v *{{ $name }}) {{ .Name }}() {{ goType $scope .ReturnType }} {
-   return {{ goType $scope .ReturnType }}({{ goExpression $scope .Result }})
+   return ({{ goType $scope .ReturnType }})({{ goExpression $scope .Result }})
 }
 {{- end}}
-- 
2.43.0


From 3896be75d5c61070fb3d3b2d81c460acec07e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 36/66] fix: pass extern and bytes values as parameters

The conversion to the pointer type of the parameter was not parenthesised.
---
 .../generator/templates/decode_compound_parameters.go.tmpl    | 4 ++--
 .../generator/templates/encode_compound_parameters.go.tmpl    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/generator/templates/decode_compound_parameters.go.tmpl b/internal/generator/templates/decode_compound_parameters.go.tmpl
index 8c93a6b..1da3c99 100644
--- a/internal/generator/templates/decode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/decode_compound_parameters.go.tmpl
@@ -17,9 +17,9 @@
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
         {{- if $field.Array }}
-            elem.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            elem.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- else }}
-            {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- end }}
     {{- end}}
     
diff --git a/internal/generator/templates/encode_compound_parameters.go.tmpl b/internal/generator/templates/encode_compound_parameters.go.tmpl
index d30717a..85ce2fe 100644
--- a/internal/generator/templates/encode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/encode_compound_parameters.go.tmpl
@@ -11,7 +11,7 @@
     {{- $type_parameter := getTypeParameter $scope $field.Type }}
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
-        {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+        {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
     {{- end}}
     {{- if $field.Array }}
     }
-- 
2.43.0


From 4b693398e136247788f855d6da96a88c3f6168b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 37/66] fix: do not skip the schema directory given when its
 name starts with a dot

---
 internal/model/model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 552cd4a..3e2c636 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -66,13 +66,14 @@ func walkDir(root string) ([]string, error) {
 			return err
 		}
 		if d.IsDir() {
-			if strings.HasPrefix(d.Name(), ".") {
+			// The root itself may be "." or "..", or be hidden on purpose.
+			if path != root && strings.HasPrefix(d.Name(), ".") {
 				return filepath.SkipDir
 			}
 			return nil
 		}
 
-		if strings.HasPrefix(d.Name(), ".") {
+		if path != root && strings.HasPrefix(d.Name(), ".") {
 			return nil
 		}
 
-- 
2.43.0


From ac9f77a1641557b129d68c598932ed1cf6d20262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 38/66] fix: order types whose file names are the same

---
 internal/generator/gen.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index e12a360..ab5c842 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -193,6 +193,7 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 // output allows us easier passing of arguments to write packages.
 type output struct {
 	name         string // the name of the data structure that is output
+	typeName     string // the name of the data structure in the schema
 	template     string // template file name
 	data         data
 	withPreamble bool
@@ -240,7 +241,9 @@ func newTypeOutput(astType any, d data, withPreamble bool, opts *options) output
 		templateData[k] = v
 	}
 	templateData[typeName] = astType
-	return newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out := newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out.typeName = name
+	return out
 }
 
 func (o *output) executeTemplate(w io.Writer) error {
@@ -295,6 +298,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	sort.Slice(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
+			if outs[i].name == outs[j].name {
+				return outs[i].typeName > outs[j].typeName
+			}
 			return outs[i].name > outs[j].name
 		}
 
-- 
2.43.0


From a8dbe0401f5a2f8aa1937058183308c47a83c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 39/66] fix: give every generated file a path of its own that
 go build uses

---
 internal/generator/gen.go | 51 +++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index ab5c842..081b5a0 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/build"
 	"go/format"
 	"io"
 	"log"
@@ -60,8 +61,8 @@ func (limiter PathLengthLimiter) LimitPathLength(opts *options) {
 
 type data map[string]any
 
-// uniquePaths keeps track of all codes files that have been generated so far and adds an "_idx" suffix if the same path appears again
-var uniquePaths map[string]int
+// uniquePaths keeps track of all codes files that have been generated so far, an "_idx" suffix is added if the same path appears again
+var uniquePaths map[string]bool
 
 func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags ...Option) error {
 	opts := &options{
@@ -136,13 +137,16 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
 	if uniquePaths == nil {
-		uniquePaths = make(map[string]int)
+		uniquePaths = make(map[string]bool)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
+	if trimmed := strings.TrimLeft(fn, "_"); trimmed != "" {
+		fn = trimmed // go build ignores files that start with an underscore
+	}
 	outputFile := path.Join(outputDir, fn)
 
 	if maxPathLength > 0 {
@@ -155,13 +159,40 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		}
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+	for idx := 0; ; idx++ {
+		suffix := FileSuffix
+		if idx > 0 {
+			suffix = fmt.Sprintf("_%d%s", idx, FileSuffix)
+		}
+		base := outputFile
+		if maxPathLength > 0 && len(base)+len(suffix) > maxPathLength {
+			base = base[:maxPathLength-len(suffix)]
+		}
+		if base == "" || strings.HasSuffix(base, "/") {
+			return "", fmt.Errorf("maximum path length %d is too short for the number of files in %s", maxPathLength, outputDir)
+		}
+		if unique := base + suffix; !uniquePaths[unique] && isBuiltEverywhere(path.Base(unique)) {
+			uniquePaths[unique] = true
+			return unique, nil
+		}
+	}
+}
+
+// isBuiltEverywhere checks that a Go file is part of its package whatever the platform,
+// that is that its name does not make it a test, or specific to a platform.
+func isBuiltEverywhere(fn string) bool {
+	if strings.HasSuffix(fn, "_test"+FileSuffix) {
+		return false
+	}
+	ctx := build.Context{
+		GOOS:   "any",
+		GOARCH: "any",
+		OpenFile: func(string) (io.ReadCloser, error) {
+			return io.NopCloser(strings.NewReader("package any\n")), nil
+		},
 	}
+	match, err := ctx.MatchFile("", fn)
+	return err == nil && match
 }
 
 func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
-- 
2.43.0


From 1e79a106d61775e21bc0d1a15e8e28593daa62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 40/66] fix: generate all packages before writing any file

---
 internal/generator/gen.go | 92 +++++++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 081b5a0..679fa28 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -86,17 +86,52 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 			return fmt.Errorf("%q not found, only know about %q", outputPackage, known)
 		}
 
-		return generatePackage(rootPath, pkg, opts)
+		_, err := generatePackage(rootPath, pkg, opts)
+		return err
+	}
+
+	names := maps.Keys(m.Packages)
+	sort.Strings(names)
+
+	// Generate everything before writing anything, so that a schema for which
+	// this fails leaves no files behind, and does not touch existing ones.
+	uniquePaths = nil
+	var files []sourceFile
+	packageDirs := make(map[string]string)
+	for _, name := range names {
+		dir := packageDir(rootPath, name)
+		if other, ok := packageDirs[dir]; ok {
+			return fmt.Errorf("packages %q and %q have the same output directory %s", other, name, dir)
+		}
+		packageDirs[dir] = name
+
+		pkgFiles, err := generatePackage(rootPath, m.Packages[name], opts)
+		if err != nil {
+			return fmt.Errorf("package %s: %w", name, err)
+		}
+		files = append(files, pkgFiles...)
 	}
 
-	for _, pkg := range m.Packages {
-		if err := generatePackage(rootPath, pkg, opts); err != nil {
-			return err
+	for _, file := range files {
+		if err := file.write(); err != nil {
+			return fmt.Errorf("write %s: %w", file.path, err)
 		}
 	}
 	return nil
 }
 
+// packageDir returns the directory for the files of a package.
+func packageDir(rootPath, zserioPkg string) string {
+	ids := strings.Split(strings.ToLower(zserioPkg), ".")
+	return path.Join(append([]string{rootPath}, ids...)...)
+}
+
+// sourceFile is a generated file that is to be written.
+type sourceFile struct {
+	path string
+	code []byte
+}
+
 func executeTemplate(out io.Writer, tmpl string, data data) error {
 	templ := templates.Lookup(tmpl)
 	if templ == nil {
@@ -106,20 +141,13 @@ func executeTemplate(out io.Writer, tmpl string, data data) error {
 	return templ.Execute(out, data)
 }
 
-func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (retErr error) {
-	ids := strings.Split(strings.ToLower(zserioPkg), ".")
-	outputDir := path.Join(append([]string{rootPath}, ids...)...)
-	outputFile, err := assembleUniqueFilePath(outputDir, fn, opts.maxPathLength)
-	if err != nil {
-		return fmt.Errorf("file path: %w", err)
-	}
-
-	log.Printf("Writing %s\n", outputFile)
-	if err := os.MkdirAll(outputDir, 0755); err != nil {
+func (file *sourceFile) write() (retErr error) {
+	log.Printf("Writing %s\n", file.path)
+	if err := os.MkdirAll(path.Dir(file.path), 0755); err != nil {
 		return fmt.Errorf("mkdir: %w", err)
 	}
 
-	f, err := os.OpenFile(outputFile, FileOpenFlags, 0644)
+	f, err := os.OpenFile(file.path, FileOpenFlags, 0644)
 	if err != nil {
 		return fmt.Errorf("open: %w", err)
 	}
@@ -128,11 +156,14 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 			return
 		}
 
-		_ = os.Remove(outputFile)
+		_ = os.Remove(file.path)
 	}()
-	defer f.Close()
 
-	return writeGoSource(f, code, opts.doNotFormatSource)
+	if _, err := f.Write(file.code); err != nil {
+		f.Close()
+		return fmt.Errorf("write: %w", err)
+	}
+	return f.Close()
 }
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
@@ -341,9 +372,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 	return append([]output{newOutput("pkg", "package.go.tmpl", data, true, opts)}, outs...)
 }
 
-func generatePackage(rootPath string, pkg *ast.Package, opts *options) error {
+func generatePackage(rootPath string, pkg *ast.Package, opts *options) ([]sourceFile, error) {
 	if opts.rootPackage == "" {
-		return errors.New("BUG: root package needs to be specified")
+		return nil, errors.New("BUG: root package needs to be specified")
 	}
 
 	outs := newOutputs(pkg, opts.rootPackage, opts)
@@ -352,23 +383,30 @@ func generatePackage(rootPath string, pkg *ast.Package, opts *options) error {
 		var out bytes.Buffer
 		for _, o := range outs {
 			if err := o.executeTemplate(&out); err != nil {
-				return fmt.Errorf("generate %s: %w", o.name, err)
+				return nil, fmt.Errorf("generate %s: %w", o.name, err)
 			}
 		}
 
-		return writeGoSource(os.Stdout, out.Bytes(), opts.doNotFormatSource)
+		return nil, writeGoSource(os.Stdout, out.Bytes(), opts.doNotFormatSource)
 	}
 
+	files := make([]sourceFile, 0, len(outs))
 	for _, o := range outs {
-		var out bytes.Buffer
+		var out, code bytes.Buffer
 		if err := o.executeTemplate(&out); err != nil {
-			return fmt.Errorf("generate %s: %w", o.name, err)
+			return nil, fmt.Errorf("generate %s: %w", o.name, err)
+		}
+
+		outputFile, err := assembleUniqueFilePath(packageDir(rootPath, pkg.Name), o.name, opts.maxPathLength)
+		if err != nil {
+			return nil, fmt.Errorf("file path: %w", err)
 		}
 
-		if err := writeToFile(out.Bytes(), rootPath, pkg.Name, o.name, opts); err != nil {
-			return fmt.Errorf("write %s: %w", o.name, err)
+		if err := writeGoSource(&code, out.Bytes(), opts.doNotFormatSource); err != nil {
+			return nil, fmt.Errorf("generate %s: %w", outputFile, err)
 		}
+		files = append(files, sourceFile{path: outputFile, code: code.Bytes()})
 	}
 
-	return nil
+	return files, nil
 }
-- 
2.43.0


From fb282bf9e2b15538bda047bb824d627aa1ea90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 41/66] fix: name, import and alias packages so that the
 generated code compiles

---
 internal/ast/package.go                       |  9 ++++++++-
 internal/generator/funcs.go                   | 13 ++++++++++++-
 internal/generator/templates.go               |  1 +
 internal/generator/templates/preamble.go.tmpl |  2 +-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..d938585 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -418,8 +418,15 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 	}
 }
 
+// GoPackageAlias returns the name under which a package is imported. It is
+// different for all packages, and always contains an underscore so that it is
+// neither a Go keyword, nor the name of anything else in the generated code.
 func GoPackageAlias(packageName string) string {
-	return strings.Replace(packageName, ".", "_", -1)
+	alias := strings.ReplaceAll(strings.ToLower(packageName), "_", "__")
+	if !strings.Contains(alias, ".") {
+		return alias + "_"
+	}
+	return strings.ReplaceAll(alias, ".", "_")
 }
 
 // GetTypeParameter returns the parameters of a referenced type
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index bdc90a2..f63b35f 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -4,6 +4,7 @@ package generator
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -46,7 +47,17 @@ func GoChoiceCase(choiceCase *ast.ChoiceCase) string {
 
 func GoPackageName(pkg string) string {
 	p := strings.Split(pkg, ".")
-	return strings.ToLower(p[len(p)-1])
+	name := strings.ToLower(p[len(p)-1])
+	if token.IsKeyword(name) || name == "main" {
+		// Not a name that can be used for a package that is to be imported.
+		name += "_"
+	}
+	return name
+}
+
+// GoPackagePath returns the import path of a package, relative to the root package.
+func GoPackagePath(pkg string) string {
+	return strings.ReplaceAll(strings.ToLower(pkg), ".", "/")
 }
 
 // GoGetAllImports collects a list of all imports (direct and indirect) of a
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 1775ce9..d483354 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -20,6 +20,7 @@ func init() {
 		"goChoiceCase":      GoChoiceCase,
 		"goType":            GoType,
 		"goPackageName":     GoPackageName,
+		"goPackagePath":     GoPackagePath,
 		"goGetAllImports":   GoGetAllImports,
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
diff --git a/internal/generator/templates/preamble.go.tmpl b/internal/generator/templates/preamble.go.tmpl
index 047f7bd..7bd4810 100644
--- a/internal/generator/templates/preamble.go.tmpl
+++ b/internal/generator/templates/preamble.go.tmpl
@@ -11,6 +11,6 @@ import (
     zserio "github.com/woven-planet/go-zserio"
     "github.com/woven-planet/go-zserio/ztype"
 {{- range $import := goGetAllImports .pkg }}
-    {{ goPackageAlias $import }} "{{ $root }}/{{ $import | replace "." "/" }}"
+    {{ goPackageAlias $import }} "{{ $root }}/{{ goPackagePath $import }}"
 {{- end }}
 )
-- 
2.43.0


From 1989dc53fe559f3b0bdcd2740863b6b920d1eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 42/66] fix: handle enum and bitmask values that only fit into
 an uint64

---
 internal/ast/bitmask.go                      | 36 ++++++++++++++------
 internal/ast/enum.go                         | 10 +++++-
 internal/ast/expression.go                   |  8 +++++
 internal/generator/funcs.go                  | 10 +++++-
 internal/generator/templates.go              |  1 +
 internal/generator/templates/bitmask.go.tmpl |  2 +-
 internal/generator/templates/enum.go.tmpl    |  2 +-
 7 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 72d6eb9..4822da7 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -1,6 +1,9 @@
 package ast
 
-import "fmt"
+import (
+	"fmt"
+	"math/bits"
+)
 
 type BitmaskValue struct {
 	Name string
@@ -13,13 +16,24 @@ type BitmaskType struct {
 	Values  []*BitmaskValue
 }
 
-func findNextFreeBit(lastValue int64) int64 {
-	highestBitPosition := 0
-	for lastValue > 0 {
-		lastValue = lastValue >> 1
-		highestBitPosition++
+// nextFreeBit returns the value of the bit after the highest bit of a value.
+func nextFreeBit(value *Expression) (*Expression, error) {
+	position := 0 // all bits are free in negative values
+	if value.ResultIntValue >= 0 || isLargeInteger(value) {
+		position = bits.Len64(uint64(value.ResultIntValue))
 	}
-	return 1 << highestBitPosition
+	if position > 63 {
+		return nil, ErrValueOutOfRange
+	}
+	next := &Expression{
+		EvaluationState: EvaluationStateComplete,
+		ResultType:      ExpressionTypeInteger,
+		ResultIntValue:  1 << position,
+	}
+	if position == 63 {
+		next.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "uint64"}
+	}
+	return next, nil
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
@@ -35,11 +49,11 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				if bitmask.Values[ix-1].ResultType != ExpressionTypeInteger {
 					return MissingEnumValue{value.Name}
 				}
-				value.Expression = &Expression{
-					EvaluationState: EvaluationStateComplete,
-					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  findNextFreeBit(bitmask.Values[ix-1].ResultIntValue),
+				next, err := nextFreeBit(bitmask.Values[ix-1].Expression)
+				if err != nil {
+					return fmt.Errorf("%s.%s: %w", bitmask.Name, value.Name, err)
 				}
+				value.Expression = next
 			}
 		} else {
 			if err := value.Evaluate(p); err != nil {
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index cd46ed1..a1db0f9 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -41,10 +42,17 @@ func (e *Enum) Evaluate(scope *Package) error {
 				if e.Items[ix-1].ResultType != ExpressionTypeInteger {
 					return MissingEnumValue{item.Name}
 				}
+				previous := e.Items[ix-1].Expression
+				if isLargeInteger(previous) && previous.ResultIntValue == -1 {
+					return fmt.Errorf("%s.%s: %w", e.Name, item.Name, ErrValueOutOfRange)
+				}
 				item.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
 					ResultType:      ExpressionTypeInteger,
-					ResultIntValue:  e.Items[ix-1].ResultIntValue + 1,
+					ResultIntValue:  previous.ResultIntValue + 1,
+				}
+				if isLargeInteger(previous) || previous.ResultIntValue == math.MaxInt64 {
+					item.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "uint64"}
 				}
 			}
 		} else {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 68780f3..547be2d 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -446,6 +446,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 						}
 					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
+					if isLargeInteger(bitmaskValue.Expression) {
+						expr.NativeZserioType = bitmaskValue.NativeZserioType
+					}
 					expr.ResultType = ExpressionTypeBitmask
 					expr.FullyResolved = true
 					return nil
@@ -911,6 +914,11 @@ func isUint64(typeRef *TypeReference) bool {
 	return typeRef != nil && typeRef.Name == "uint64"
 }
 
+// isLargeInteger returns if the value of an expression only fits into an uint64.
+func isLargeInteger(expr *Expression) bool {
+	return expr.ResultIntValue < 0 && isUint64(expr.NativeZserioType)
+}
+
 // parseInteger parses an integer literal. Literals that only fit into an
 // unsigned integer are of the type uint64.
 func (expr *Expression) parseInteger(text string, base int) error {
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index f63b35f..a51ca99 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -33,13 +33,21 @@ func GoArrayTraits(scope ast.Scope, typ *ast.TypeReference) (string, error) {
 }
 
 // GoChoiceCase returns the list of values for which a case of a choice is used.
+// GoIntegerValue prints the value of an integer expression.
+func GoIntegerValue(expression *ast.Expression) string {
+	if expression.ResultIntValue < 0 && expression.NativeZserioType != nil && expression.NativeZserioType.Name == "uint64" {
+		return fmt.Sprintf("%d", uint64(expression.ResultIntValue))
+	}
+	return fmt.Sprintf("%d", expression.ResultIntValue)
+}
+
 func GoChoiceCase(choiceCase *ast.ChoiceCase) string {
 	var values []string
 	for _, condition := range choiceCase.Conditions {
 		if condition.Condition.ResultType == ast.ExpressionTypeBool {
 			values = append(values, fmt.Sprintf("%t", condition.Condition.ResultBoolValue))
 		} else {
-			values = append(values, fmt.Sprintf("%d", condition.Condition.ResultIntValue))
+			values = append(values, GoIntegerValue(condition.Condition))
 		}
 	}
 	return strings.Join(values, ", ")
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index d483354..d62d589 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -19,6 +19,7 @@ func init() {
 		"isPackable":        IsPackable,
 		"goChoiceCase":      GoChoiceCase,
 		"goType":            GoType,
+		"goIntegerValue":    GoIntegerValue,
 		"goPackageName":     GoPackageName,
 		"goPackagePath":     GoPackagePath,
 		"goGetAllImports":   GoGetAllImports,
diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index 8bd2ed2..563f869 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -9,7 +9,7 @@
 type {{ $bitmask.Name }} {{ goType $scope $bitmask.Type }}
 const (
 {{- range $value := $bitmask.Values }}
-    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}{{ .ResultIntValue }}
+    {{ $bitmask.Name }}{{ $value.Name }} {{ $bitmask.Name }} = {{ if eq $value.ResultType "int" }}{{ goIntegerValue .Expression }}
     {{- else if eq $value.ResultType "string" }}{{ .ResultStringValue }}
     {{- else }}UNSUPPORTED
     {{- end }}
diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index 74bb742..0498e47 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -11,7 +11,7 @@ const (
     {{- if $item.Comment}}
         {{ $item.Comment }}
     {{- end}}
-    {{ $item.GoName }} {{ $enum.Name }} = {{ if eq $item.ResultType "int" }}{{ .ResultIntValue }}
+    {{ $item.GoName }} {{ $enum.Name }} = {{ if eq $item.ResultType "int" }}{{ goIntegerValue .Expression }}
     {{- else if eq $item.ResultType "string" }}{{ .ResultStringValue }}
     {{- else }}UNSUPPORTED
     {{- end }}
-- 
2.43.0


From 9d8e0636f25f7d722cfad4b859785a7dc2e21587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 43/66] fix: refuse bit widths that are not between 1 and 64

---
 internal/model/package.go   | 6 +++++-
 internal/visitor/visitor.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/model/package.go b/internal/model/package.go
index a39a7d0..c57e91b 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -41,7 +41,11 @@ func PackageFromFile(path string) (*ast.Package, error) {
 	}
 	visitor := &visitor.Visitor{}
 
-	switch v := visitor.Visit(tree).(type) {
+	result := visitor.Visit(tree)
+	if len(syntaxErrors.errs) > 0 {
+		return nil, errors.Join(syntaxErrors.errs...)
+	}
+	switch v := result.(type) {
 	case error:
 		return nil, fmt.Errorf("%s: %w", path, v)
 	case *ast.Package:
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 34f25a8..04c2bed 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -691,7 +691,10 @@ func (v *Visitor) VisitTypeReference(ctx *parser.TypeReferenceContext) any {
 			Name:      t.GetText(),
 		}
 		if ix := strings.Index(typ.Name, ":"); ix != -1 {
-			bits, _ := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			bits, err := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			if err != nil || bits < 1 || bits > 64 {
+				ctx.GetParser().NotifyErrorListeners(fmt.Sprintf("%s: the bit width must be between 1 and 64", typ.Name), ctx.GetStart(), nil)
+			}
 			typ.Name = typ.Name[:ix]
 			typ.Bits = int(bits)
 			if typ.Bits == 8 || typ.Bits == 16 || typ.Bits == 32 || typ.Bits == 64 {
-- 
2.43.0


From 54f9325145a5a056a180d1e0850e23ec7fc1df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 44/66] fix: refuse schemas in which two things have the same
 Go name

---
 internal/generator/gen.go | 74 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 74 insertions(+)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 679fa28..0a57304 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -4,8 +4,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	goast "go/ast"
 	"go/build"
 	"go/format"
+	goparser "go/parser"
+	"go/token"
 	"io"
 	"log"
 	"os"
@@ -109,6 +112,9 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		if err != nil {
 			return fmt.Errorf("package %s: %w", name, err)
 		}
+		if err := checkDeclarations(pkgFiles); err != nil {
+			return fmt.Errorf("package %s: %w", name, err)
+		}
 		files = append(files, pkgFiles...)
 	}
 
@@ -126,6 +132,74 @@ func packageDir(rootPath, zserioPkg string) string {
 	return path.Join(append([]string{rootPath}, ids...)...)
 }
 
+// checkDeclarations checks that no two things of a package have the same name
+// in Go. In the schema they may differ, for example in the case of their first
+// letter.
+func checkDeclarations(files []sourceFile) error {
+	names := make(map[string]bool)
+	declare := func(scope, name string) error {
+		if names[scope+name] && name != "_" {
+			return fmt.Errorf("the Go name %s%s is used more than once", scope, name)
+		}
+		names[scope+name] = true
+		return nil
+	}
+	declareAll := func(scope string, idents []*goast.Ident) error {
+		for _, ident := range idents {
+			if err := declare(scope, ident.Name); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
+	for _, file := range files {
+		parsed, err := goparser.ParseFile(token.NewFileSet(), file.path, file.code, goparser.SkipObjectResolution)
+		if err != nil {
+			return err
+		}
+		for _, decl := range parsed.Decls {
+			switch d := decl.(type) {
+			case *goast.FuncDecl:
+				scope := ""
+				if d.Recv != nil {
+					receiver := d.Recv.List[0].Type
+					if star, ok := receiver.(*goast.StarExpr); ok {
+						receiver = star.X
+					}
+					scope = receiver.(*goast.Ident).Name + "."
+				}
+				if err := declare(scope, d.Name.Name); err != nil {
+					return err
+				}
+			case *goast.GenDecl:
+				for _, spec := range d.Specs {
+					switch s := spec.(type) {
+					case *goast.ValueSpec:
+						if err := declareAll("", s.Names); err != nil {
+							return err
+						}
+					case *goast.TypeSpec:
+						if err := declare("", s.Name.Name); err != nil {
+							return err
+						}
+						structType, ok := s.Type.(*goast.StructType)
+						if !ok {
+							continue
+						}
+						for _, field := range structType.Fields.List {
+							if err := declareAll(s.Name.Name+".", field.Names); err != nil {
+								return err
+							}
+						}
+					}
+				}
+			}
+		}
+	}
+	return nil
+}
+
 // sourceFile is a generated file that is to be written.
 type sourceFile struct {
 	path string
-- 
2.43.0


From 99d77d3b216734f39adbc836ff6eb49969c508bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 45/66] fix: keep the existing file when a file cannot be
 written

---
 internal/generator/gen.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 0a57304..87a7528 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -221,7 +221,10 @@ func (file *sourceFile) write() (retErr error) {
 		return fmt.Errorf("mkdir: %w", err)
 	}
 
-	f, err := os.OpenFile(file.path, FileOpenFlags, 0644)
+	// Write to a new file first, so that an existing one is only replaced by
+	// one that is complete.
+	tempPath := path.Join(path.Dir(file.path), fmt.Sprintf(".%d.tmp", os.Getpid()))
+	f, err := os.OpenFile(tempPath, FileOpenFlags, 0644)
 	if err != nil {
 		return fmt.Errorf("open: %w", err)
 	}
@@ -230,14 +233,17 @@ func (file *sourceFile) write() (retErr error) {
 			return
 		}
 
-		_ = os.Remove(file.path)
+		_ = os.Remove(tempPath)
 	}()
 
 	if _, err := f.Write(file.code); err != nil {
 		f.Close()
 		return fmt.Errorf("write: %w", err)
 	}
-	return f.Close()
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("close: %w", err)
+	}
+	return os.Rename(tempPath, file.path)
 }
 
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
-- 
2.43.0


From 86fb5c3fa63317280db88bc5cc1fb9a44827c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 46/66] fix: output only the package that is asked for

---
 internal/generator/gen.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 87a7528..70ca41a 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -77,9 +77,8 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		f(opts)
 	}
 
-	if opts.outputToStdout {
-		pkg, ok := m.Packages[outputPackage]
-		if !ok {
+	if opts.outputToStdout || outputPackage != "" {
+		if _, ok := m.Packages[outputPackage]; !ok {
 			var known []string
 			for name := range m.Packages {
 				known = append(known, name)
@@ -88,13 +87,18 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 
 			return fmt.Errorf("%q not found, only know about %q", outputPackage, known)
 		}
+	}
 
-		_, err := generatePackage(rootPath, pkg, opts)
+	if opts.outputToStdout {
+		_, err := generatePackage(rootPath, m.Packages[outputPackage], opts)
 		return err
 	}
 
 	names := maps.Keys(m.Packages)
 	sort.Strings(names)
+	if outputPackage != "" {
+		names = []string{outputPackage}
+	}
 
 	// Generate everything before writing anything, so that a schema for which
 	// this fails leaves no files behind, and does not touch existing ones.
-- 
2.43.0


From 071e199663ee5f63ea717b2f1e88d6eb2c99da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 47/66] fix: refuse names that are defined more than once

---
 internal/visitor/visitor.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 04c2bed..fed6c84 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"math"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -68,28 +69,44 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 		}
 	}
 
+	defined := make(map[string]bool)
 	for _, dir := range ctx.AllLanguageDirective() {
 		dirNode := v.Visit(dir.(antlr.ParseTree))
+		name := ""
 		switch n := dirNode.(type) {
 		case *ast.Const:
+			name = n.Name
 			pkg.Consts[n.Name] = n
 		case *ast.Subtype:
+			name = n.Name
 			pkg.Subtypes[n.Name] = n
 		case *ast.InstantiateType:
+			name = n.Name
 			pkg.InstantiatedTypes[n.Name] = n
 		case *ast.Struct:
+			name = n.Name
 			pkg.Structs[n.Name] = n
 		case *ast.Enum:
+			name = n.Name
 			pkg.Enums[n.Name] = n
 		case *ast.Union:
+			name = n.Name
 			pkg.Unions[n.Name] = n
 		case *ast.BitmaskType:
+			name = n.Name
 			pkg.Bitmasks[n.Name] = n
 		case *ast.Choice:
+			name = n.Name
 			pkg.Choices[n.Name] = n
 		case error:
 			return n
+		default:
+			continue
+		}
+		if defined[name] {
+			ctx.GetParser().NotifyErrorListeners(fmt.Sprintf("%s is defined more than once", name), dir.GetStart(), nil)
 		}
+		defined[name] = true
 	}
 	return pkg
 }
@@ -779,6 +796,9 @@ func (v *Visitor) VisitTemplateArgument(ctx *parser.TemplateArgumentContext) any
 func (v *Visitor) VisitTemplateParameters(ctx *parser.TemplateParametersContext) any {
 	var ids []string
 	for _, id := range ctx.AllId() {
+		if slices.Contains(ids, id.GetText()) {
+			ctx.GetParser().NotifyErrorListeners(fmt.Sprintf("the template parameter %s is defined more than once", id.GetText()), id.GetStart(), nil)
+		}
 		ids = append(ids, id.GetText())
 	}
 	return ids
-- 
2.43.0


From 823ade95bf461640bc7ae04fa3752ae4ea72667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 48/66] fix: refuse packages that are defined by more than one
 file

---
 internal/model/model.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/model/model.go b/internal/model/model.go
index 3e2c636..11d53a4 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/fs"
 	"log"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -14,6 +15,9 @@ import (
 type Model struct {
 	Packages map[string]*ast.Package
 
+	// files are the files that define the packages.
+	files map[string]string
+
 	// instantiations are the templates and arguments of all instantiated types,
 	// by the name of the instantiated type.
 	instantiations     map[string]string
@@ -23,6 +27,7 @@ type Model struct {
 func NewModel() *Model {
 	return &Model{
 		Packages: map[string]*ast.Package{},
+		files:    map[string]string{},
 	}
 }
 
@@ -90,6 +95,12 @@ func walkDir(root string) ([]string, error) {
 	return paths, nil
 }
 
+func isSameFile(path1, path2 string) bool {
+	info1, err1 := os.Stat(path1)
+	info2, err2 := os.Stat(path2)
+	return err1 == nil && err2 == nil && os.SameFile(info1, info2)
+}
+
 func (m *Model) parseFile(path string) error {
 	log.Printf("Parsing file %s...\n", path)
 	pkg, err := PackageFromFile(path)
@@ -97,6 +108,12 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
+	// It is no problem if the same file is given more than once.
+	if file, found := m.files[pkg.Name]; found && !isSameFile(file, path) {
+		return fmt.Errorf("%s: package %s is already defined by %s", path, pkg.Name, file)
+	}
+	m.files[pkg.Name] = path
+
 	if err := pkg.CollectSymbols(); err != nil {
 		return err
 	}
-- 
2.43.0


From e70bb97d5c5d8368db9f171337640720321fee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 49/66] fix: refuse values of the wrong type, and constants
 that are not constant

---
 internal/ast/bitmask.go        |  9 +++++++
 internal/ast/const.go          | 49 ++++++++++++++++++++++++++++++++++
 internal/ast/enum.go           |  9 +++++++
 internal/ast/field.go          | 16 +++++++++++
 internal/ast/type_reference.go |  9 +++++++
 5 files changed, 92 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 4822da7..e01e214 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -37,6 +37,9 @@ func nextFreeBit(value *Expression) (*Expression, error) {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
+	if err := checkIntegerType(p, bitmask.Type); err != nil {
+		return fmt.Errorf("%s: %w", bitmask.Name, err)
+	}
 	for ix, value := range bitmask.Values {
 		if value.Expression == nil {
 			if ix == 0 {
@@ -59,6 +62,12 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 			if err := value.Evaluate(p); err != nil {
 				return err
 			}
+			if value.ResultType != ExpressionTypeInteger && value.ResultType != ExpressionTypeBitmask {
+				return fmt.Errorf("%s.%s: %w", bitmask.Name, value.Name, ErrWrongValueType)
+			}
+			if !value.FullyResolved {
+				return fmt.Errorf("%s.%s: %w", bitmask.Name, value.Name, ErrValueNotConstant)
+			}
 		}
 		if err := checkValueRange(p, bitmask.Type, value.Expression); err != nil {
 			return fmt.Errorf("%s.%s: %w", bitmask.Name, value.Name, err)
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 4d138d1..19a7bc3 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -7,6 +7,9 @@ import (
 )
 
 var ErrValueOutOfRange = errors.New("value is out of range")
+var ErrValueNotConstant = errors.New("value is not constant")
+var ErrWrongValueType = errors.New("wrong type of value")
+var ErrNotIntegerType = errors.New("type is not an integer type")
 
 // Const is a zserio constant
 type Const struct {
@@ -21,6 +24,12 @@ func (c *Const) Evaluate(scope *Package) error {
 	if err := c.ValueExpression.Evaluate(scope); err != nil {
 		return err
 	}
+	if !c.ValueExpression.FullyResolved {
+		return fmt.Errorf("%s: %w", c.Name, ErrValueNotConstant)
+	}
+	if err := CheckValueType(scope, c.Type, c.ValueExpression); err != nil {
+		return fmt.Errorf("%s: %w", c.Name, err)
+	}
 	if err := checkValueRange(scope, c.Type, c.ValueExpression); err != nil {
 		return fmt.Errorf("%s: %w", c.Name, err)
 	}
@@ -68,6 +77,46 @@ func integerTypeRange(typeRef *TypeReference) (int64, uint64, bool) {
 	return 0, math.MaxUint64 >> (64 - bits), true
 }
 
+// checkIntegerType returns an error if a type is not a builtin integer type.
+func checkIntegerType(scope *Package, typeRef *TypeReference) error {
+	originalType, err := scope.GetOriginalType(typeRef)
+	if err != nil {
+		return err
+	}
+	// The range of bit fields with a dynamic length is not known.
+	if _, _, ok := integerTypeRange(originalType.Type); !ok && originalType.Type.LengthExpression == nil {
+		return fmt.Errorf("%w: %s", ErrNotIntegerType, typeRef.Name)
+	}
+	return nil
+}
+
+// CheckValueType returns an error if the value of an expression is of another
+// kind than the values of a type.
+func CheckValueType(scope *Package, typeRef *TypeReference, value *Expression) error {
+	wanted, nativeType, err := evaluateExpressionType(typeRef, scope)
+	if err != nil {
+		return err
+	}
+	ok := wanted == value.ResultType
+	if nativeType != nil && (nativeType.Name == "extern" || nativeType.Name == "bytes") {
+		// These are never constants, nor the result of an operator.
+		ok = value.ResultSymbol != nil
+		wanted = ""
+	}
+	switch wanted {
+	case ExpressionTypeInteger, ExpressionTypeEnum, ExpressionTypeBitmask:
+		// The items of an enum or bitmask are evaluated to their values.
+		ok = ok || value.ResultType == ExpressionTypeInteger ||
+			value.ResultType == ExpressionTypeEnum || value.ResultType == ExpressionTypeBitmask
+	case ExpressionTypeFloat:
+		ok = ok || value.ResultType == ExpressionTypeInteger
+	}
+	if !ok {
+		return fmt.Errorf("%w: %s value for %s", ErrWrongValueType, value.ResultType, typeRef.Name)
+	}
+	return nil
+}
+
 // checkValueRange returns an error if the value of an expression is not
 // representable in an integer type.
 func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression) error {
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index a1db0f9..3dc3af9 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -30,6 +30,9 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 }
 
 func (e *Enum) Evaluate(scope *Package) error {
+	if err := checkIntegerType(scope, e.Type); err != nil {
+		return fmt.Errorf("%s: %w", e.Name, err)
+	}
 	for ix, item := range e.Items {
 		if item.Expression == nil {
 			if ix == 0 {
@@ -59,6 +62,12 @@ func (e *Enum) Evaluate(scope *Package) error {
 			if err := item.Evaluate(scope); err != nil {
 				return err
 			}
+			if item.ResultType != ExpressionTypeInteger && item.ResultType != ExpressionTypeBitmask {
+				return fmt.Errorf("%s.%s: %w", e.Name, item.Name, ErrWrongValueType)
+			}
+			if !item.FullyResolved {
+				return fmt.Errorf("%s.%s: %w", e.Name, item.Name, ErrValueNotConstant)
+			}
 		}
 		if err := checkValueRange(scope, e.Type, item.Expression); err != nil {
 			return fmt.Errorf("%s.%s: %w", e.Name, item.Name, err)
diff --git a/internal/ast/field.go b/internal/ast/field.go
index aa9d751..fd6c752 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type Array struct {
 	IsPacked bool
 	Length   *Expression
@@ -37,11 +39,22 @@ func (f *Field) Evaluate(p *Package) error {
 		if err := f.Initializer.Evaluate(p); err != nil {
 			return err
 		}
+		if f.Array == nil {
+			if err := CheckValueType(p, f.Type, f.Initializer); err != nil {
+				return fmt.Errorf("initial value of %s: %w", f.Name, err)
+			}
+			if err := checkValueRange(p, f.Type, f.Initializer); err != nil {
+				return fmt.Errorf("initial value of %s: %w", f.Name, err)
+			}
+		}
 	}
 	if f.OptionalClause != nil {
 		if err := f.OptionalClause.Evaluate(p); err != nil {
 			return err
 		}
+		if f.OptionalClause.ResultType != ExpressionTypeBool {
+			return fmt.Errorf("condition of %s: %w: %s", f.Name, ErrWrongValueType, f.OptionalClause.ResultType)
+		}
 	}
 	if f.Constraint != nil {
 		if err := f.Constraint.Evaluate(p); err != nil {
@@ -53,6 +66,9 @@ func (f *Field) Evaluate(p *Package) error {
 			if err := f.Array.Length.Evaluate(p); err != nil {
 				return err
 			}
+			if f.Array.Length.ResultType != ExpressionTypeInteger {
+				return fmt.Errorf("length of %s: %w: %s", f.Name, ErrWrongValueType, f.Array.Length.ResultType)
+			}
 		}
 	}
 	return nil
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index 6256909..2c8b866 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type TypeReference struct {
 	// IsBuiltin is set to true for standard zserio types
 	IsBuiltin         bool
@@ -23,6 +25,13 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 		if err := tr.LengthExpression.Evaluate(p); err != nil {
 			return err
 		}
+		length := tr.LengthExpression
+		if length.ResultType != ExpressionTypeInteger {
+			return fmt.Errorf("bit width of %s: %w: %s", tr.Name, ErrWrongValueType, length.ResultType)
+		}
+		if length.FullyResolved && (length.ResultIntValue < 1 || length.ResultIntValue > 64) {
+			return fmt.Errorf("bit width of %s: %w: %d", tr.Name, ErrValueOutOfRange, length.ResultIntValue)
+		}
 	}
 	for _, typeArgument := range tr.TypeArguments {
 		if err := typeArgument.Evaluate(p); err != nil {
-- 
2.43.0


From 9896d1d5797bd7e99fe2f12c3b03ecc5c50a9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 50/66] fix: check the definitions of a schema, and refuse
 those that make no sense

---
 internal/ast/package.go     |  31 +++-
 internal/model/model.go     |   4 +
 internal/model/transform.go | 275 ++++++++++++++++++++++++++++++++++++
 internal/visitor/visitor.go |   5 +-
 4 files changed, 308 insertions(+), 7 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index d938585..f3506d0 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -289,8 +289,9 @@ func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
 	}
 
 	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if symbolRef, err := importedPackage.GetOtherType(name); err == nil {
+	for _, importedPackage := range p.allImportedPackages() {
+		if symbolRef, err := importedPackage.LocalSymbols.GetOtherType(name); err == nil {
+			symbolRef.Package = importedPackage.Name
 			return symbolRef, nil
 		}
 	}
@@ -462,6 +463,25 @@ func (p *Package) GetTypeParameter(typeRef *TypeReference) ([]*Parameter, error)
 	return parameters, nil
 }
 
+// allImportedPackages returns the imported packages, the packages that they
+// import, and so on. Packages might import each other.
+func (p *Package) allImportedPackages() []*Package {
+	var imported []*Package
+	visited := map[*Package]bool{p: true}
+	var visit func(pkg *Package)
+	visit = func(pkg *Package) {
+		for _, importedPackage := range pkg.ImportedPackages {
+			if !visited[importedPackage] {
+				visited[importedPackage] = true
+				imported = append(imported, importedPackage)
+				visit(importedPackage)
+			}
+		}
+	}
+	visit(p)
+	return imported
+}
+
 // GetImportedScope returns a scope, if it can be found within the imported scope
 func (p *Package) GetImportedScope(name string) (*Package, error) {
 	if name == "" {
@@ -476,10 +496,9 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 		}
 	}
 	// still not found? try the imports of all imports
-	for _, pkg := range p.ImportedPackages {
-		obj, err := pkg.GetImportedScope(name)
-		if err == nil {
-			return obj, nil
+	for _, pkg := range p.allImportedPackages() {
+		if pkg.Name == name {
+			return pkg, nil
 		}
 	}
 	return nil, errors.New("scope does not exist, or has not been imported")
diff --git a/internal/model/model.go b/internal/model/model.go
index 11d53a4..66aacc2 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -159,6 +159,10 @@ func (m *Model) evaluate() error {
 		return fmt.Errorf("eval choices: %w", err)
 	}
 
+	if err := m.CheckDefinitions(); err != nil {
+		return fmt.Errorf("check definitions: %w", err)
+	}
+
 	m.CapitalizeNames()
 	return nil
 }
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 9e3dcc3..7a2be77 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
+	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
 type TypeError struct {
@@ -983,3 +984,277 @@ func (m *Model) resolveTypeReference(pkgScope *ast.Package, tr *ast.TypeReferenc
 
 	return nil
 }
+
+var ErrDuplicateValue = errors.New("value is used more than once")
+var ErrCompoundConstant = errors.New("constants of compound types are not supported")
+var ErrIncorrectNumberOfArguments = errors.New("incorrect number of arguments")
+var ErrMissingTemplateArguments = errors.New("template arguments are missing")
+var ErrRecursiveDefinition = errors.New("type contains itself, which is only possible in arrays and optional fields")
+var ErrUsedBeforeDefinition = errors.New("field is used before it is decoded")
+
+// compound is what structs, choices and unions have in common.
+type compound struct {
+	pkg        *ast.Package
+	name       string
+	isTemplate bool
+	parameters []*ast.Parameter
+	fields     []*ast.Field
+	functions  []*ast.Function
+}
+
+func newCompound(pkg *ast.Package, symbol any) (compound, bool) {
+	switch n := symbol.(type) {
+	case *ast.Struct:
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, n.Fields, n.Functions}, true
+	case *ast.Choice:
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, choiceFields(n), n.Functions}, true
+	case *ast.Union:
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, n.Fields, n.Functions}, true
+	}
+	return compound{}, false
+}
+
+// findCompound returns the compound that a type refers to, if any.
+func findCompound(pkg *ast.Package, typeRef *ast.TypeReference) (compound, bool, error) {
+	originalType, err := pkg.GetOriginalType(typeRef)
+	if err != nil || originalType.Type.IsBuiltin {
+		return compound{}, false, err
+	}
+	scope, err := pkg.GetImportedScope(originalType.Type.Package)
+	if err != nil {
+		return compound{}, false, err
+	}
+	symbol, err := scope.GetType(originalType.Type.Name)
+	if err != nil {
+		return compound{}, false, err
+	}
+	c, ok := newCompound(scope, symbol.Symbol)
+	return c, ok, nil
+}
+
+// CheckDefinitions checks the definitions of all packages. All expressions must
+// be evaluated already.
+func (m *Model) CheckDefinitions() error {
+	for _, packageName := range sortedKeys(m.Packages) {
+		if err := checkPackage(m.Packages[packageName]); err != nil {
+			return fmt.Errorf("%s: %w", packageName, err)
+		}
+	}
+	return nil
+}
+
+func checkPackage(pkg *ast.Package) error {
+	for _, name := range sortedKeys(pkg.Consts) {
+		if _, isCompound, err := findCompound(pkg, pkg.Consts[name].Type); err != nil || isCompound {
+			return fmt.Errorf("%s: %w", name, errors.Join(err, ErrCompoundConstant))
+		}
+	}
+	for _, name := range sortedKeys(pkg.Subtypes) {
+		if err := checkTypeReference(pkg, pkg.Subtypes[name].Type); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(pkg.Enums) {
+		values := make(map[int64]bool)
+		for _, item := range pkg.Enums[name].Items {
+			if values[item.ResultIntValue] {
+				return fmt.Errorf("%s.%s: %w", name, item.Name, ErrDuplicateValue)
+			}
+			values[item.ResultIntValue] = true
+		}
+	}
+	for _, name := range sortedKeys(pkg.Structs) {
+		structure := pkg.Structs[name]
+		c, _ := newCompound(pkg, structure)
+		if err := checkCompound(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+		if err := checkOrderOfUse(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(pkg.Unions) {
+		c, _ := newCompound(pkg, pkg.Unions[name])
+		if err := checkCompound(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+	for _, name := range sortedKeys(pkg.Choices) {
+		c, _ := newCompound(pkg, pkg.Choices[name])
+		if err := checkCompound(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+		if err := checkLabels(pkg.Choices[name]); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+	return nil
+}
+
+// checkTypeReference checks a reference to a type that can not have arguments.
+func checkTypeReference(pkg *ast.Package, typeRef *ast.TypeReference) error {
+	c, _, err := findCompound(pkg, typeRef)
+	if err != nil {
+		return err
+	}
+	if c.isTemplate {
+		return fmt.Errorf("%w: %s", ErrMissingTemplateArguments, typeRef.Name)
+	}
+	return nil
+}
+
+func checkCompound(c compound) error {
+	if c.isTemplate {
+		return nil
+	}
+	for _, parameter := range c.parameters {
+		if err := checkTypeReference(c.pkg, parameter.Type); err != nil {
+			return fmt.Errorf("%s: %w", parameter.Name, err)
+		}
+	}
+	for _, function := range c.functions {
+		if err := checkTypeReference(c.pkg, function.ReturnType); err != nil {
+			return fmt.Errorf("%s: %w", function.Name, err)
+		}
+		if err := ast.CheckValueType(c.pkg, function.ReturnType, function.Result); err != nil {
+			return fmt.Errorf("%s: %w", function.Name, err)
+		}
+	}
+	for _, field := range c.fields {
+		if err := checkTypeReference(c.pkg, field.Type); err != nil {
+			return fmt.Errorf("%s: %w", field.Name, err)
+		}
+		fieldType, _, err := findCompound(c.pkg, field.Type)
+		if err != nil {
+			return fmt.Errorf("%s: %w", field.Name, err)
+		}
+		arguments := field.Type.TypeArguments
+		if len(arguments) != len(fieldType.parameters) {
+			return fmt.Errorf("%s: %w: got %d, expected %d", field.Name, ErrIncorrectNumberOfArguments, len(arguments), len(fieldType.parameters))
+		}
+		for ix, parameter := range fieldType.parameters {
+			if err := ast.CheckValueType(fieldType.pkg, parameter.Type, arguments[ix]); err != nil {
+				return fmt.Errorf("%s: argument %s: %w", field.Name, parameter.Name, err)
+			}
+		}
+	}
+	return checkRecursion(c)
+}
+
+// checkRecursion checks that a type does not contain itself, so that its values
+// are of a finite size.
+func checkRecursion(root compound) error {
+	type key struct {
+		pkg  *ast.Package
+		name string
+	}
+	rootKey := key{root.pkg, root.name}
+	visited := make(map[key]bool)
+	var visit func(c compound) error
+	visit = func(c compound) error {
+		for _, field := range c.fields {
+			if field.IsOptional || field.Array != nil && !isFixedArray(field.Array) {
+				continue
+			}
+			fieldType, isCompound, err := findCompound(c.pkg, field.Type)
+			if err != nil {
+				return err
+			}
+			fieldKey := key{fieldType.pkg, fieldType.name}
+			if !isCompound || visited[fieldKey] {
+				continue
+			}
+			if fieldKey == rootKey {
+				return fmt.Errorf("%s: %w", field.Name, ErrRecursiveDefinition)
+			}
+			visited[fieldKey] = true
+			if err := visit(fieldType); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	return visit(root)
+}
+
+// isFixedArray returns if an array always has elements.
+func isFixedArray(array *ast.Array) bool {
+	return array.Length != nil && array.Length.FullyResolved && array.Length.ResultIntValue > 0
+}
+
+// checkOrderOfUse checks that what is needed to decode a field of a structure
+// is decoded before it.
+func checkOrderOfUse(c compound) error {
+	if c.isTemplate {
+		return nil
+	}
+	later := make(map[any]bool)
+	for ix := len(c.fields) - 1; ix >= 0; ix-- {
+		field := c.fields[ix]
+		later[field] = true
+		expressions := []*ast.Expression{field.OptionalClause, field.Type.LengthExpression}
+		if field.Array != nil {
+			expressions = append(expressions, field.Array.Length)
+		}
+		for _, expression := range append(expressions, field.Type.TypeArguments...) {
+			if usesSymbol(expression, later) {
+				return fmt.Errorf("%s: %w", field.Name, ErrUsedBeforeDefinition)
+			}
+		}
+	}
+	return nil
+}
+
+// usesSymbol returns if an expression uses any of the symbols of a compound.
+func usesSymbol(expression *ast.Expression, symbols map[any]bool) bool {
+	if expression == nil {
+		return false
+	}
+	if expression.Type == parser.ZserioParserID && expression.ResultSymbol != nil && symbols[expression.ResultSymbol.Symbol] {
+		return true
+	}
+	return usesSymbol(expression.Operand1, symbols) ||
+		usesSymbol(expression.Operand2, symbols) ||
+		usesSymbol(expression.Operand3, symbols)
+}
+
+// checkLabelType checks that a label can be compared with the selector.
+func checkLabelType(selector, label *ast.Expression) error {
+	kind := func(expression *ast.Expression) ast.ExpressionType {
+		switch expression.ResultType {
+		case ast.ExpressionTypeEnum, ast.ExpressionTypeBitmask:
+			// labels are evaluated to their values
+			return ast.ExpressionTypeInteger
+		}
+		return expression.ResultType
+	}
+	if kind(selector) != kind(label) {
+		return fmt.Errorf("case %s: %w: %s", label.Text, ast.ErrWrongValueType, label.ResultType)
+	}
+	return nil
+}
+
+// checkLabels checks the labels of all cases of a choice.
+func checkLabels(choice *ast.Choice) error {
+	if len(choice.TemplateParameters) > 0 {
+		return nil
+	}
+	isUsed := make(map[string]bool)
+	for _, choiceCase := range choice.Cases {
+		for _, condition := range choiceCase.Conditions {
+			label := condition.Condition
+			if !label.FullyResolved {
+				return fmt.Errorf("case %s: %w", label.Text, ast.ErrValueNotConstant)
+			}
+			if err := checkLabelType(choice.SelectorExpression, label); err != nil {
+				return err
+			}
+			value := fmt.Sprint(label.ResultIntValue, label.ResultBoolValue, label.ResultStringValue, label.ResultFloatValue)
+			if isUsed[value] {
+				return fmt.Errorf("case %s: %w", value, ErrDuplicateValue)
+			}
+			isUsed[value] = true
+		}
+	}
+	return nil
+}
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index fed6c84..7ada805 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -16,6 +16,7 @@ import (
 
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
+var ErrArrayExpected = errors.New("only arrays can be packed or implicit")
 var ErrMissingPackageName = errors.New("schemas without a package are not supported")
 
 type Visitor struct {
@@ -257,7 +258,7 @@ func (v *Visitor) VisitFieldAlignment(ctx *parser.FieldAlignmentContext) any {
 	if err != nil {
 		return ErrAlignmentMustBeInteger
 	}
-	if value > math.MaxUint8 {
+	if value < 1 || value > math.MaxUint8 {
 		return ErrAlignmentMustBeInteger
 	}
 	return uint8(value)
@@ -697,6 +698,8 @@ func (v *Visitor) VisitFieldTypeId(ctx *parser.FieldTypeIdContext) any {
 		if ctx.PACKED() != nil {
 			field.Array.IsPacked = true
 		}
+	} else if ctx.PACKED() != nil || ctx.IMPLICIT() != nil {
+		return ErrArrayExpected
 	}
 	return field
 }
-- 
2.43.0


From 5561ed6e79171ff3ba1dcd61c13d378cb8b8db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 51/66] fix: refuse labels out of range, and indices outside of
 arrays

---
 internal/ast/choice.go      |  5 +++++
 internal/model/transform.go | 18 +++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 099ef3f..b94f7e7 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -148,6 +148,11 @@ func (choice *Choice) Evaluate(p *Package) error {
 			if err := condition.Condition.Evaluate(p); err != nil {
 				return err
 			}
+			if selectorType := choice.SelectorExpression.NativeZserioType; selectorType != nil {
+				if err := checkValueRange(p, selectorType, condition.Condition); err != nil {
+					return err
+				}
+			}
 		}
 	}
 
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 7a2be77..f1b7a18 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -990,6 +990,7 @@ var ErrCompoundConstant = errors.New("constants of compound types are not suppor
 var ErrIncorrectNumberOfArguments = errors.New("incorrect number of arguments")
 var ErrMissingTemplateArguments = errors.New("template arguments are missing")
 var ErrRecursiveDefinition = errors.New("type contains itself, which is only possible in arrays and optional fields")
+var ErrNoIndex = errors.New("@index is only possible in the arguments of array elements")
 var ErrUsedBeforeDefinition = errors.New("field is used before it is decoded")
 
 // compound is what structs, choices and unions have in common.
@@ -1196,7 +1197,16 @@ func checkOrderOfUse(c compound) error {
 		if field.Array != nil {
 			expressions = append(expressions, field.Array.Length)
 		}
-		for _, expression := range append(expressions, field.Type.TypeArguments...) {
+		arguments := field.Type.TypeArguments
+		if field.Array == nil {
+			expressions = append(expressions, arguments...)
+		}
+		for _, expression := range expressions {
+			if usesIndex(expression) {
+				return fmt.Errorf("%s: %w", field.Name, ErrNoIndex)
+			}
+		}
+		for _, expression := range append(expressions, arguments...) {
 			if usesSymbol(expression, later) {
 				return fmt.Errorf("%s: %w", field.Name, ErrUsedBeforeDefinition)
 			}
@@ -1218,6 +1228,12 @@ func usesSymbol(expression *ast.Expression, symbols map[any]bool) bool {
 		usesSymbol(expression.Operand3, symbols)
 }
 
+// usesIndex returns if an expression uses the index of an array element.
+func usesIndex(expression *ast.Expression) bool {
+	return expression != nil && (expression.Type == parser.ZserioParserINDEX ||
+		usesIndex(expression.Operand1) || usesIndex(expression.Operand2) || usesIndex(expression.Operand3))
+}
+
 // checkLabelType checks that a label can be compared with the selector.
 func checkLabelType(selector, label *ast.Expression) error {
 	kind := func(expression *ast.Expression) ast.ExpressionType {
-- 
2.43.0


From 9ece64f633840b2d91ebc7b8277eefda4ac2251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 52/66] fix: refuse packages that need each other, without a
 stack overflow

---
 internal/generator/gen.go | 51 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 70ca41a..5f5c386 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"path"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -105,6 +106,7 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 	uniquePaths = nil
 	var files []sourceFile
 	packageDirs := make(map[string]string)
+	imports := make(map[string][]string)
 	for _, name := range names {
 		dir := packageDir(rootPath, name)
 		if other, ok := packageDirs[dir]; ok {
@@ -119,9 +121,16 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		if err := checkDeclarations(pkgFiles); err != nil {
 			return fmt.Errorf("package %s: %w", name, err)
 		}
+		if imports[rootPackage+"/"+GoPackagePath(name)], err = usedImports(pkgFiles); err != nil {
+			return fmt.Errorf("package %s: %w", name, err)
+		}
 		files = append(files, pkgFiles...)
 	}
 
+	if err := checkImportCycles(imports); err != nil {
+		return err
+	}
+
 	for _, file := range files {
 		if err := file.write(); err != nil {
 			return fmt.Errorf("write %s: %w", file.path, err)
@@ -204,6 +213,48 @@ func checkDeclarations(files []sourceFile) error {
 	return nil
 }
 
+// usedImports returns the import paths of all packages that are used by a package.
+func usedImports(files []sourceFile) ([]string, error) {
+	var imports []string
+	for _, file := range files {
+		parsed, err := goparser.ParseFile(token.NewFileSet(), file.path, file.code, goparser.ImportsOnly)
+		if err != nil {
+			return nil, err
+		}
+		for _, spec := range parsed.Imports {
+			importPath, err := strconv.Unquote(spec.Path.Value)
+			if err != nil {
+				return nil, err
+			}
+			imports = append(imports, importPath)
+		}
+	}
+	return imports, nil
+}
+
+// checkImportCycles checks that no package needs itself, which is not possible
+// in Go.
+func checkImportCycles(imports map[string][]string) error {
+	packages := maps.Keys(imports)
+	sort.Strings(packages)
+	for _, pkg := range packages {
+		visited := make(map[string]bool)
+		pending := append([]string{}, imports[pkg]...)
+		for len(pending) > 0 {
+			next := pending[0]
+			pending = pending[1:]
+			if next == pkg {
+				return fmt.Errorf("cyclic imports are not supported: %s needs itself", pkg)
+			}
+			if !visited[next] {
+				visited[next] = true
+				pending = append(pending, imports[next]...)
+			}
+		}
+	}
+	return nil
+}
+
 // sourceFile is a generated file that is to be written.
 type sourceFile struct {
 	path string
-- 
2.43.0


From 5f7c1129492d84d1083f8a465b270297fed9383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 53/66] fix: values of enums and bitmasks that are not given
 are constant

---
 internal/ast/bitmask.go | 2 ++
 internal/ast/enum.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index e01e214..95a0905 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -27,6 +27,7 @@ func nextFreeBit(value *Expression) (*Expression, error) {
 	}
 	next := &Expression{
 		EvaluationState: EvaluationStateComplete,
+		FullyResolved:   true,
 		ResultType:      ExpressionTypeInteger,
 		ResultIntValue:  1 << position,
 	}
@@ -45,6 +46,7 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 			if ix == 0 {
 				value.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
+					FullyResolved:   true,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  1, // bitmasks start with 1
 				}
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index 3dc3af9..5b7f139 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -38,6 +38,7 @@ func (e *Enum) Evaluate(scope *Package) error {
 			if ix == 0 {
 				item.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
+					FullyResolved:   true,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  0,
 				}
@@ -51,6 +52,7 @@ func (e *Enum) Evaluate(scope *Package) error {
 				}
 				item.Expression = &Expression{
 					EvaluationState: EvaluationStateComplete,
+					FullyResolved:   true,
 					ResultType:      ExpressionTypeInteger,
 					ResultIntValue:  previous.ResultIntValue + 1,
 				}
-- 
2.43.0


From 139eda2ecf8f1cdc7e2907a9ba7574080da728e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 54/66] fix: look up fields before types, and only what is
 imported

---
 internal/ast/choice.go           | 23 ++++++++++---
 internal/ast/expression.go       |  8 ++---
 internal/ast/package.go          | 56 +++++++++++++++++---------------
 internal/ast/struct.go           |  2 +-
 internal/ast/union.go            |  2 +-
 internal/generator/expression.go |  2 +-
 6 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index b94f7e7..c6abd5f 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -75,7 +75,7 @@ func (choice *Choice) selectorType() (*TypeReference, error) {
 
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
-func (choice *Choice) fullySpecifyChoiceConditions() error {
+func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 	resultType := choice.SelectorExpression.ResultType
 	if resultType != ExpressionTypeEnum && resultType != ExpressionTypeBitmask {
 		// any name in a choice case is the name of a constant
@@ -95,11 +95,24 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 				if err != nil {
 					return err
 				}
+				selectorScope, err := p.GetImportedScope(selectorType.Package)
+				if err != nil {
+					return err
+				}
+				selectorSymbol, err := selectorScope.GetType(selectorType.Name)
+				if err != nil {
+					return err
+				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
+					// The name of the type might not be known, or be the name
+					// of something else.
 					Operand1: &Expression{
-						Type: parser.ZserioParserID,
-						Text: selectorType.Name,
+						Type:            parser.ZserioParserID,
+						Text:            selectorType.Name,
+						EvaluationState: EvaluationStateComplete,
+						ResultType:      resultType,
+						ResultSymbol:    selectorSymbol,
 					},
 					Operand2: &Expression{
 						Type: parser.UnevaluatableExpressionType,
@@ -117,7 +130,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	if len(choice.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &choice.Name
+	defer p.enterCompound(choice.Name)()
 
 	// The selector expression needs to be evaluated first, because the choice
 	// cases depend on the symbol refered to by the selector expression
@@ -126,7 +139,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	}
 
 	// Fully specify the choice condition symbols
-	if err := choice.fullySpecifyChoiceConditions(); err != nil {
+	if err := choice.fullySpecifyChoiceConditions(p); err != nil {
 		return err
 	}
 
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 547be2d..47d3711 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -154,7 +154,7 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 	if err != nil {
 		return "", nil, err
 	}
-	symbol, err := symbolScope.GetSymbol(typeRef.Name)
+	symbol, err := symbolScope.GetType(typeRef.Name)
 	if err != nil {
 		return "", nil, err
 	}
@@ -332,11 +332,9 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 	if err != nil {
 		return err
 	}
-	previousScope := functionEvaluationScope.LocalSymbols.CurrentCompoundScope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = &typeRef.Type.Name
+	leaveCompound := functionEvaluationScope.enterCompound(typeRef.Type.Name)
 	err = function.Result.Evaluate(functionEvaluationScope)
-	// Restore the previous scope
-	functionEvaluationScope.LocalSymbols.CurrentCompoundScope = previousScope
+	leaveCompound()
 	if err != nil {
 		return err
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index f3506d0..395ef45 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -146,7 +146,7 @@ func (p *Package) GoArrayTraits(t *TypeReference) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	typeSymbol, err := typeScope.GetSymbol(t.Name)
+	typeSymbol, err := typeScope.GetType(t.Name)
 	if err != nil {
 		return "", fmt.Errorf("%w: %s", ErrUnknownType, t.Name)
 	}
@@ -175,7 +175,7 @@ func (p *Package) IsDeltaPackable(t *TypeReference) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	typeSymbol, err := typeScope.GetSymbol(t.Name)
+	typeSymbol, err := typeScope.GetType(t.Name)
 	if err != nil {
 		return false, fmt.Errorf("%w: %s", ErrUnknownType, t.Name)
 	}
@@ -207,16 +207,14 @@ type SymbolReference struct {
 // GetSymbol searches for a symbol not only in the current scope, but also in
 // all imported scopes.
 func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
-	// The search order is important to avoid any recursive lookup, in case
-	// field and type have the same name.
-	// first search for types in local and all imported packages
-	if typeSymbol, err := p.GetType(name); err == nil {
+	// first, search for composite types values (struct fields), in the
+	// active local scope
+	if typeSymbol, err := p.GetCurrentCompoundType(name); err == nil {
 		return typeSymbol, nil
 	}
 
-	// second, search for composite types values (struct fields), in the
-	// active local scopes
-	if typeSymbol, err := p.GetCurrentCompoundType(name); err == nil {
+	// second, search for types in local and all imported packages
+	if typeSymbol, err := p.GetType(name); err == nil {
 		return typeSymbol, nil
 	}
 
@@ -235,10 +233,18 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 	}
 
 	// If the symbol was not found in the local scope, check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if typeSymbol, err := importedPackage.LocalSymbols.GetType(name); err == nil {
-			typeSymbol.Package = importedPackage.Name
-			return typeSymbol, nil
+	for _, imp := range p.Imports {
+		if imp.Type != "*" && imp.Type != name {
+			continue
+		}
+		for _, importedPackage := range p.ImportedPackages {
+			if importedPackage.Name != imp.Package {
+				continue
+			}
+			if typeSymbol, err := importedPackage.LocalSymbols.GetType(name); err == nil {
+				typeSymbol.Package = importedPackage.Name
+				return typeSymbol, nil
+			}
 		}
 	}
 
@@ -253,19 +259,17 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 			return typeSymbol, nil
 		}
 	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if importedPackage.LocalSymbols.CurrentCompoundScope != nil {
-			if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(*importedPackage.LocalSymbols.CurrentCompoundScope, name); err == nil {
-				typeSymbol.Package = importedPackage.Name
-				return typeSymbol, nil
-			}
-		}
-	}
 	return nil, errors.New("compound symbol not found")
 }
 
+// enterCompound makes the symbols of a compound type available. The returned
+// function must be called to leave the compound type again.
+func (p *Package) enterCompound(name string) func() {
+	previousScope := p.LocalSymbols.CurrentCompoundScope
+	p.LocalSymbols.CurrentCompoundScope = &name
+	return func() { p.LocalSymbols.CurrentCompoundScope = previousScope }
+}
+
 func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolReference, error) {
 	if typeSymbol, err := p.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
 		typeSymbol.Package = p.Name
@@ -338,7 +342,7 @@ func (p *Package) GetOriginalSymbol(symbolReference *SymbolReference) (*SymbolRe
 		if err != nil {
 			return nil, err
 		}
-		symbolReference, err = p.GetSymbol(typeRef.Name)
+		symbolReference, err = p.GetType(typeRef.Name)
 		if err != nil {
 			return nil, err
 		}
@@ -365,7 +369,7 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 		if err != nil {
 			return nil, err
 		}
-		symbol, err := currentScope.GetSymbol(typeRef.Name)
+		symbol, err := currentScope.GetType(typeRef.Name)
 		if err != nil {
 			return nil, err
 		}
@@ -440,7 +444,7 @@ func (p *Package) GetTypeParameter(typeRef *TypeReference) ([]*Parameter, error)
 	if err != nil {
 		return nil, err
 	}
-	symbol, err := typeScope.GetSymbol(nativeType.Type.Name)
+	symbol, err := typeScope.GetType(nativeType.Type.Name)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 271e8e8..7f43c97 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -33,7 +33,7 @@ func (s *Struct) Evaluate(p *Package) error {
 	if len(s.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &s.Name
+	defer p.enterCompound(s.Name)()
 
 	for _, param := range s.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 9ca57c4..7ee729b 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -33,7 +33,7 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
-	p.LocalSymbols.CurrentCompoundScope = &u.Name
+	defer p.enterCompound(u.Name)()
 
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 6557886..9d0de12 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -152,7 +152,7 @@ func typeReferenceToGoType(scope ast.Scope, typeRef *ast.TypeReference) (goOpera
 		if err != nil {
 			return goOperandType{}, err
 		}
-		symbol, err := symbolScope.GetSymbol(originalType.Type.Name)
+		symbol, err := symbolScope.GetType(originalType.Type.Name)
 		if err != nil {
 			return goOperandType{}, err
 		}
-- 
2.43.0


From 9f8005270d17ae056db6323e2407a8ac7799b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 55/66] fix: refuse arrays, functions, types and wrong
 compounds as values, and missing bit widths

---
 internal/ast/const.go          | 48 ++++++++++++++++++++++----
 internal/ast/expression.go     | 62 +++++++++++++++++++++++++++++++++-
 internal/ast/field.go          |  2 +-
 internal/ast/type_reference.go |  2 +-
 internal/model/package.go      | 11 ++++++
 internal/model/transform.go    | 61 +++++++++++++++++++++++++++++----
 internal/visitor/visitor.go    | 20 +++++++++++
 7 files changed, 190 insertions(+), 16 deletions(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 19a7bc3..d1c7ee3 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -9,6 +9,7 @@ import (
 var ErrValueOutOfRange = errors.New("value is out of range")
 var ErrValueNotConstant = errors.New("value is not constant")
 var ErrWrongValueType = errors.New("wrong type of value")
+var ErrNotAValue = errors.New("not a value")
 var ErrNotIntegerType = errors.New("type is not an integer type")
 
 // Const is a zserio constant
@@ -93,17 +94,17 @@ func checkIntegerType(scope *Package, typeRef *TypeReference) error {
 // CheckValueType returns an error if the value of an expression is of another
 // kind than the values of a type.
 func CheckValueType(scope *Package, typeRef *TypeReference, value *Expression) error {
-	wanted, nativeType, err := evaluateExpressionType(typeRef, scope)
+	wanted, _, err := evaluateExpressionType(typeRef, scope)
 	if err != nil {
 		return err
 	}
-	ok := wanted == value.ResultType
-	if nativeType != nil && (nativeType.Name == "extern" || nativeType.Name == "bytes") {
-		// These are never constants, nor the result of an operator.
-		ok = value.ResultSymbol != nil
-		wanted = ""
+	if err := value.CheckIsValue(); err != nil {
+		return err
 	}
+	ok := wanted == value.ResultType
 	switch wanted {
+	case ExpressionTypeCompound:
+		ok = ok && isSameCompound(scope, typeRef, value)
 	case ExpressionTypeInteger, ExpressionTypeEnum, ExpressionTypeBitmask:
 		// The items of an enum or bitmask are evaluated to their values.
 		ok = ok || value.ResultType == ExpressionTypeInteger ||
@@ -117,6 +118,41 @@ func CheckValueType(scope *Package, typeRef *TypeReference, value *Expression) e
 	return nil
 }
 
+// isSameCompound returns if a value is of a compound type.
+func isSameCompound(scope *Package, typeRef *TypeReference, value *Expression) bool {
+	if value.ResultSymbol == nil {
+		return false
+	}
+	var valueType *TypeReference
+	switch n := value.ResultSymbol.Symbol.(type) {
+	case *Field:
+		valueType = n.Type
+	case *Parameter:
+		valueType = n.Type
+	case *Function:
+		valueType = n.ReturnType
+	case *TypeReference:
+		valueType = n
+	default:
+		return false
+	}
+	// The value might be of a type that is not known in this scope.
+	valueScope := scope
+	if symbolScope, err := scope.GetImportedScope(value.ResultSymbol.Package); err == nil {
+		valueScope = symbolScope
+	}
+	originalType, err := scope.GetOriginalType(typeRef)
+	if err != nil {
+		return false
+	}
+	originalValueType, err := valueScope.GetOriginalType(valueType)
+	if err != nil {
+		return false
+	}
+	return originalType.Type.Package == originalValueType.Type.Package &&
+		originalType.Type.Name == originalValueType.Type.Name
+}
+
 // checkValueRange returns an error if the value of an expression is not
 // representable in an integer type.
 func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression) error {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 47d3711..2204ca0 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -22,6 +22,15 @@ const (
 	ExpressionTypeBitmask  ExpressionType = "bitmask"
 	ExpressionTypeEnum     ExpressionType = "enum"
 	ExpressionTypeCompound ExpressionType = "compound"
+	ExpressionTypeExtern   ExpressionType = "extern"
+	ExpressionTypeBytes    ExpressionType = "bytes"
+
+	// ExpressionTypeArray is the type of an array, whose elements and length
+	// can be used.
+	ExpressionTypeArray ExpressionType = "array"
+
+	// ExpressionTypeFunction is the type of a function that is not called.
+	ExpressionTypeFunction ExpressionType = "function"
 )
 
 // EvaluationState is the type of the expression evaluation state
@@ -146,6 +155,10 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 			return ExpressionTypeFloat, builtinType, nil
 		case "float64":
 			return ExpressionTypeFloat, builtinType, nil
+		case "extern":
+			return ExpressionTypeExtern, builtinType, nil
+		case "bytes":
+			return ExpressionTypeBytes, builtinType, nil
 		default:
 			return ExpressionTypeInteger, builtinType, nil
 		}
@@ -163,6 +176,9 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 }
 
 func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType, *TypeReference, error) {
+	if field, ok := symbol.Symbol.(*Field); ok && field.Array != nil {
+		return ExpressionTypeArray, nil, nil
+	}
 	fundamentalSymbol, err := scope.GetOriginalSymbol(symbol)
 	if err != nil {
 		return "", nil, err
@@ -179,7 +195,7 @@ func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType
 	case *Choice:
 		return ExpressionTypeCompound, nil, nil
 	case *Function:
-		return n.Result.ResultType, nil, nil
+		return ExpressionTypeFunction, nil, nil
 	case *BitmaskType:
 		return ExpressionTypeBitmask, nil, nil
 	case *TypeReference:
@@ -189,6 +205,27 @@ func evaluateSymbolType(symbol *SymbolReference, scope *Package) (ExpressionType
 	}
 }
 
+// isTypeName returns if an expression is the name of a type, which does not have
+// a value.
+func (expr *Expression) isTypeName() bool {
+	if expr.Type != parser.ZserioParserID || expr.ResultSymbol == nil {
+		return false
+	}
+	switch expr.ResultSymbol.Symbol.(type) {
+	case *Subtype, *InstantiateType, *Enum, *BitmaskType, *Struct, *Choice, *Union:
+		return true
+	}
+	return false
+}
+
+// CheckIsValue returns an error if an expression does not have a value.
+func (expr *Expression) CheckIsValue() error {
+	if expr.isTypeName() || expr.ResultType == ExpressionTypeArray || expr.ResultType == ExpressionTypeFunction {
+		return fmt.Errorf("%w: %s", ErrNotAValue, expr.Text)
+	}
+	return nil
+}
+
 // evaluateIndexExpression evaluates an index expression, such as [@index].
 func (expr *Expression) evaluateIndexExpression() error {
 	expr.ResultType = ExpressionTypeInteger
@@ -688,6 +725,10 @@ func (expr *Expression) evaluateComparisonExpression() error {
 			expr.Operand2.ResultType == ExpressionTypeInteger) {
 		return errors.New("comparison expression must have operands of the same type")
 	}
+	switch expr.Operand1.ResultType {
+	case ExpressionTypeCompound, ExpressionTypeExtern, ExpressionTypeBytes, ExpressionTypeArray, ExpressionTypeFunction:
+		return fmt.Errorf("values of type %s can not be compared", expr.Operand1.ResultType)
+	}
 	expr.ResultType = ExpressionTypeBool
 	if !isFloatComparison && (expr.Operand1.ResultType == ExpressionTypeInteger ||
 		expr.Operand1.ResultType == ExpressionTypeBitmask) {
@@ -959,6 +1000,16 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	}
 
 	expr.EvaluationState = EvaluationStateInProgress
+	// The items of types can be used, but not the types themselves.
+	checkOperand := func(operand *Expression) error {
+		if operand.isTypeName() {
+			return fmt.Errorf("%w: %s", ErrNotAValue, operand.Text)
+		}
+		return nil
+	}
+	if expr.Type == parser.ZserioParserDOT {
+		checkOperand = func(*Expression) error { return nil }
+	}
 
 	// First, assume that the expression can be fully resolved
 	expr.FullyResolved = true
@@ -967,6 +1018,9 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if err != nil {
 			return err
 		}
+		if err := checkOperand(expr.Operand1); err != nil {
+			return err
+		}
 		if !expr.Operand1.FullyResolved {
 			expr.FullyResolved = false
 		}
@@ -976,6 +1030,9 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if err != nil {
 			return err
 		}
+		if err := checkOperand(expr.Operand2); err != nil {
+			return err
+		}
 		if !expr.Operand2.FullyResolved {
 			expr.FullyResolved = false
 		}
@@ -986,6 +1043,9 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		if err != nil {
 			return err
 		}
+		if err := checkOperand(expr.Operand3); err != nil {
+			return err
+		}
 		if !expr.Operand3.FullyResolved {
 			expr.FullyResolved = false
 		}
diff --git a/internal/ast/field.go b/internal/ast/field.go
index fd6c752..d3cff2d 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -66,7 +66,7 @@ func (f *Field) Evaluate(p *Package) error {
 			if err := f.Array.Length.Evaluate(p); err != nil {
 				return err
 			}
-			if f.Array.Length.ResultType != ExpressionTypeInteger {
+			if f.Array.Length.ResultType != ExpressionTypeInteger || f.Array.Length.isTypeName() {
 				return fmt.Errorf("length of %s: %w: %s", f.Name, ErrWrongValueType, f.Array.Length.ResultType)
 			}
 		}
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index 2c8b866..4f229a3 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -26,7 +26,7 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 			return err
 		}
 		length := tr.LengthExpression
-		if length.ResultType != ExpressionTypeInteger {
+		if length.ResultType != ExpressionTypeInteger || length.isTypeName() {
 			return fmt.Errorf("bit width of %s: %w: %s", tr.Name, ErrWrongValueType, length.ResultType)
 		}
 		if length.FullyResolved && (length.ResultIntValue < 1 || length.ResultIntValue > 64) {
diff --git a/internal/model/package.go b/internal/model/package.go
index c57e91b..30fe948 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -3,6 +3,7 @@ package model
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -23,6 +24,15 @@ func (l *syntaxErrorListener) SyntaxError(_ antlr.Recognizer, _ any, line, colum
 	l.errs = append(l.errs, fmt.Errorf("%s:%d:%d: %s", l.path, line, column, msg))
 }
 
+// checkNames reports names that can not be used in Go.
+func checkNames(p antlr.Parser, tokens []antlr.Token) {
+	for _, token := range tokens {
+		if token.GetTokenType() == parser.ZserioLexerID && strings.Trim(token.GetText(), "_") == "" {
+			p.NotifyErrorListeners(fmt.Sprintf("%s is not a name", token.GetText()), token, nil)
+		}
+	}
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
@@ -36,6 +46,7 @@ func PackageFromFile(path string) (*ast.Package, error) {
 	p := parser.NewZserioParser(stream)
 	p.AddErrorListener(syntaxErrors)
 	tree := p.PackageDeclaration()
+	checkNames(p, stream.GetAllTokens())
 	if len(syntaxErrors.errs) > 0 {
 		return nil, errors.Join(syntaxErrors.errs...)
 	}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index f1b7a18..53f1143 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -998,6 +998,7 @@ type compound struct {
 	pkg        *ast.Package
 	name       string
 	isTemplate bool
+	isStruct   bool
 	parameters []*ast.Parameter
 	fields     []*ast.Field
 	functions  []*ast.Function
@@ -1006,11 +1007,11 @@ type compound struct {
 func newCompound(pkg *ast.Package, symbol any) (compound, bool) {
 	switch n := symbol.(type) {
 	case *ast.Struct:
-		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, n.Fields, n.Functions}, true
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, true, n.TypeParameters, n.Fields, n.Functions}, true
 	case *ast.Choice:
-		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, choiceFields(n), n.Functions}, true
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, false, n.TypeParameters, choiceFields(n), n.Functions}, true
 	case *ast.Union:
-		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, n.TypeParameters, n.Fields, n.Functions}, true
+		return compound{pkg, n.Name, len(n.TemplateParameters) > 0, false, n.TypeParameters, n.Fields, n.Functions}, true
 	}
 	return compound{}, false
 }
@@ -1079,12 +1080,21 @@ func checkPackage(pkg *ast.Package) error {
 		if err := checkCompound(c); err != nil {
 			return fmt.Errorf("%s: %w", name, err)
 		}
+		if err := checkOrderOfUse(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
 	}
 	for _, name := range sortedKeys(pkg.Choices) {
 		c, _ := newCompound(pkg, pkg.Choices[name])
 		if err := checkCompound(c); err != nil {
 			return fmt.Errorf("%s: %w", name, err)
 		}
+		if err := checkOrderOfUse(c); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+		if err := checkSelector(c, pkg.Choices[name].SelectorExpression); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
 		if err := checkLabels(pkg.Choices[name]); err != nil {
 			return fmt.Errorf("%s: %w", name, err)
 		}
@@ -1153,11 +1163,21 @@ func checkRecursion(root compound) error {
 	visited := make(map[key]bool)
 	var visit func(c compound) error
 	visit = func(c compound) error {
+		names := make(map[*ast.TypeReference]string)
+		var types []*ast.TypeReference
+		for _, parameter := range c.parameters {
+			names[parameter.Type] = parameter.Name
+			types = append(types, parameter.Type)
+		}
 		for _, field := range c.fields {
 			if field.IsOptional || field.Array != nil && !isFixedArray(field.Array) {
 				continue
 			}
-			fieldType, isCompound, err := findCompound(c.pkg, field.Type)
+			names[field.Type] = field.Name
+			types = append(types, field.Type)
+		}
+		for _, typeRef := range types {
+			fieldType, isCompound, err := findCompound(c.pkg, typeRef)
 			if err != nil {
 				return err
 			}
@@ -1166,7 +1186,7 @@ func checkRecursion(root compound) error {
 				continue
 			}
 			if fieldKey == rootKey {
-				return fmt.Errorf("%s: %w", field.Name, ErrRecursiveDefinition)
+				return fmt.Errorf("%s: %w", names[typeRef], ErrRecursiveDefinition)
 			}
 			visited[fieldKey] = true
 			if err := visit(fieldType); err != nil {
@@ -1183,13 +1203,18 @@ func isFixedArray(array *ast.Array) bool {
 	return array.Length != nil && array.Length.FullyResolved && array.Length.ResultIntValue > 0
 }
 
-// checkOrderOfUse checks that what is needed to decode a field of a structure
-// is decoded before it.
+// checkOrderOfUse checks that what is needed to decode a field is decoded before
+// it. Choices and unions only have a single field.
 func checkOrderOfUse(c compound) error {
 	if c.isTemplate {
 		return nil
 	}
 	later := make(map[any]bool)
+	if !c.isStruct {
+		for _, field := range c.fields {
+			later[field] = true
+		}
+	}
 	for ix := len(c.fields) - 1; ix >= 0; ix-- {
 		field := c.fields[ix]
 		later[field] = true
@@ -1234,6 +1259,28 @@ func usesIndex(expression *ast.Expression) bool {
 		usesIndex(expression.Operand1) || usesIndex(expression.Operand2) || usesIndex(expression.Operand3))
 }
 
+// checkSelector checks that the selector of a choice is known before any of its
+// fields.
+func checkSelector(c compound, selector *ast.Expression) error {
+	if c.isTemplate {
+		return nil
+	}
+	if err := selector.CheckIsValue(); err != nil {
+		return err
+	}
+	fields := make(map[any]bool)
+	for _, field := range c.fields {
+		fields[field] = true
+	}
+	if usesSymbol(selector, fields) {
+		return ErrUsedBeforeDefinition
+	}
+	if usesIndex(selector) {
+		return ErrNoIndex
+	}
+	return nil
+}
+
 // checkLabelType checks that a label can be compared with the selector.
 func checkLabelType(selector, label *ast.Expression) error {
 	kind := func(expression *ast.Expression) ast.ExpressionType {
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 7ada805..1742d0e 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -179,6 +179,7 @@ func (v *Visitor) VisitConstDefinition(ctx *parser.ConstDefinitionContext) any {
 }
 
 func (v *Visitor) VisitSubtypeDeclaration(ctx *parser.SubtypeDeclarationContext) any {
+	checkHasBitWidth(ctx, ctx.TypeReference())
 	return &ast.Subtype{
 		Name:    ctx.Id().GetText(),
 		Comment: getComment(ctx.GetParser(), ctx.GetStart()),
@@ -753,6 +754,19 @@ func (v *Visitor) VisitDynamicLengthArgument(ctx *parser.DynamicLengthArgumentCo
 	return v.Visit(ctx.Expression().(antlr.ParseTree)).(*ast.Expression)
 }
 
+// isDynamicBitField returns if a type needs a bit width, for example bit<length>.
+func isDynamicBitField(ctx parser.ITypeReferenceContext) bool {
+	typ, ok := ctx.(*parser.TypeReferenceContext)
+	return ok && typ.BuiltinType() != nil && typ.BuiltinType().(*parser.BuiltinTypeContext).DynamicBitFieldType() != nil
+}
+
+// checkHasBitWidth reports an error for bit fields whose width is not given.
+func checkHasBitWidth(ctx antlr.ParserRuleContext, typ parser.ITypeReferenceContext) {
+	if isDynamicBitField(typ) {
+		ctx.(interface{ GetParser() antlr.Parser }).GetParser().NotifyErrorListeners(fmt.Sprintf("the bit width of %s is missing", ctx.GetText()), ctx.GetStart(), nil)
+	}
+}
+
 func (v *Visitor) VisitTypeInstantiation(ctx *parser.TypeInstantiationContext) any {
 	typ := v.Visit(ctx.TypeReference().(antlr.ParseTree)).(*ast.TypeReference)
 	if ctx.TypeArguments() != nil {
@@ -760,6 +774,11 @@ func (v *Visitor) VisitTypeInstantiation(ctx *parser.TypeInstantiationContext) a
 	}
 	if ctx.DynamicLengthArgument() != nil {
 		typ.LengthExpression = v.Visit(ctx.DynamicLengthArgument().(antlr.ParseTree)).(*ast.Expression)
+		if !isDynamicBitField(ctx.TypeReference()) {
+			ctx.GetParser().NotifyErrorListeners(fmt.Sprintf("%s can not have a bit width", typ.Name), ctx.GetStart(), nil)
+		}
+	} else {
+		checkHasBitWidth(ctx, ctx.TypeReference())
 	}
 	return typ
 }
@@ -793,6 +812,7 @@ func (v *Visitor) VisitTemplateArguments(ctx *parser.TemplateArgumentsContext) a
 }
 
 func (v *Visitor) VisitTemplateArgument(ctx *parser.TemplateArgumentContext) any {
+	checkHasBitWidth(ctx, ctx.TypeReference())
 	return v.Visit(ctx.TypeReference().(antlr.ParseTree))
 }
 
-- 
2.43.0


From 4864752c3412d962f388459e521699390368802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 56/66] fix: refuse constant arguments and results that are out
 of range

---
 internal/ast/const.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index d1c7ee3..c280553 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -31,9 +31,6 @@ func (c *Const) Evaluate(scope *Package) error {
 	if err := CheckValueType(scope, c.Type, c.ValueExpression); err != nil {
 		return fmt.Errorf("%s: %w", c.Name, err)
 	}
-	if err := checkValueRange(scope, c.Type, c.ValueExpression); err != nil {
-		return fmt.Errorf("%s: %w", c.Name, err)
-	}
 	return nil
 }
 
@@ -92,7 +89,7 @@ func checkIntegerType(scope *Package, typeRef *TypeReference) error {
 }
 
 // CheckValueType returns an error if the value of an expression is of another
-// kind than the values of a type.
+// kind than the values of a type, or known not to be one of them.
 func CheckValueType(scope *Package, typeRef *TypeReference, value *Expression) error {
 	wanted, _, err := evaluateExpressionType(typeRef, scope)
 	if err != nil {
@@ -115,6 +112,9 @@ func CheckValueType(scope *Package, typeRef *TypeReference, value *Expression) e
 	if !ok {
 		return fmt.Errorf("%w: %s value for %s", ErrWrongValueType, value.ResultType, typeRef.Name)
 	}
+	if value.FullyResolved {
+		return checkValueRange(scope, typeRef, value)
+	}
 	return nil
 }
 
-- 
2.43.0


From c60d60874827e963e01bc61ab4adde3af39a10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 57/66] fix: names in a template are the ones of the package of
 the template

---
 internal/ast/choice.go      | 10 ++++++++--
 internal/ast/expression.go  | 19 ++++++++++++++++++-
 internal/ast/package.go     | 17 +++++++++++++++++
 internal/ast/scope.go       |  5 +++++
 internal/ast/struct.go      | 16 +++++++++++-----
 internal/ast/union.go       | 16 +++++++++++-----
 internal/model/model.go     |  8 ++++----
 internal/model/transform.go | 29 +++++++++++++++++++----------
 8 files changed, 93 insertions(+), 27 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index c6abd5f..674167c 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -21,6 +21,11 @@ type Choice struct {
 	Name               string
 	Comment            string
 	TemplateParameters []string
+
+	// TemplatePackage is the package of the template, if the type is an instance
+	// of a template from another package.
+	TemplatePackage *Package
+
 	TypeParameters     []*Parameter
 	SelectorExpression *Expression
 	Cases              []*ChoiceCase
@@ -31,8 +36,9 @@ type Choice struct {
 func (choice *Choice) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: choice,
-		Scope:  make(map[string]any),
+		Symbol:          choice,
+		Scope:           make(map[string]any),
+		TemplatePackage: choice.TemplatePackage,
 	}
 
 	for _, param := range choice.TypeParameters {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 2204ca0..e976e32 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -91,6 +91,10 @@ type Expression struct {
 	// ExpressionTypeStruct.
 	ResultSymbol *SymbolReference
 
+	// TemplateArgument is the type for which a template is instantiated, if the
+	// expression is the name of a template parameter.
+	TemplateArgument *TypeReference
+
 	// FullyResolved specifies if the expression is fully resolved (no variables)
 	FullyResolved bool
 }
@@ -109,6 +113,7 @@ func (expr *Expression) Instantiate(templateTypes map[string]*TypeReference) *Ex
 	if expr.Type == parser.ZserioParserDOT && expr.Operand1.Type == parser.ZserioParserID {
 		if templateType, found := templateTypes[expr.Operand1.Text]; found {
 			instantiated.Operand1.Text = templateType.Name
+			instantiated.Operand1.TemplateArgument = templateType
 		}
 	}
 	return &instantiated
@@ -233,9 +238,21 @@ func (expr *Expression) evaluateIndexExpression() error {
 	return nil
 }
 
+// findSymbol looks up the symbol of an identifier.
+func (expr *Expression) findSymbol(scope *Package) (*SymbolReference, error) {
+	if expr.TemplateArgument == nil {
+		return scope.GetSymbol(expr.Text)
+	}
+	argumentScope, err := scope.GetImportedScope(expr.TemplateArgument.Package)
+	if err != nil {
+		return nil, err
+	}
+	return argumentScope.GetType(expr.TemplateArgument.Name)
+}
+
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
-	symbol, err := scope.GetSymbol(expr.Text)
+	symbol, err := expr.findSymbol(scope)
 	if err != nil {
 		return errors.New("symbol not found")
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 395ef45..c8b7437 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -213,6 +213,11 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 		return typeSymbol, nil
 	}
 
+	// the expressions of a template use the names of the package of the template
+	if templatePackage := p.currentTemplatePackage(); templatePackage != nil {
+		p = templatePackage
+	}
+
 	// second, search for types in local and all imported packages
 	if typeSymbol, err := p.GetType(name); err == nil {
 		return typeSymbol, nil
@@ -262,6 +267,18 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 	return nil, errors.New("compound symbol not found")
 }
 
+// currentTemplatePackage returns the package of the template, if the active local
+// scope is the one of an instance of a template.
+func (p *Package) currentTemplatePackage() *Package {
+	if p.LocalSymbols.CurrentCompoundScope == nil {
+		return nil
+	}
+	if compoundScope, found := p.LocalSymbols.CompoundScopes[*p.LocalSymbols.CurrentCompoundScope]; found {
+		return compoundScope.TemplatePackage
+	}
+	return nil
+}
+
 // enterCompound makes the symbols of a compound type available. The returned
 // function must be called to leave the compound type again.
 func (p *Package) enterCompound(name string) func() {
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 9e1c740..d7d22ae 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -252,6 +252,11 @@ func (s *RootScope) HasType(t string) bool {
 type CompoundScope struct {
 	Symbol any
 	Scope  map[string]any
+
+	// TemplatePackage is the package of the template, if the compound type is an
+	// instance of a template from another package. The expressions of the template use the names of
+	// that package.
+	TemplatePackage *Package
 }
 
 // SymbolScope keeps track of all symbols that are available in this scope
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 7f43c97..916c414 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -4,16 +4,22 @@ type Struct struct {
 	Name               string
 	Comment            string
 	TemplateParameters []string
-	TypeParameters     []*Parameter
-	Fields             []*Field
-	Functions          []*Function
+
+	// TemplatePackage is the package of the template, if the type is an instance
+	// of a template from another package.
+	TemplatePackage *Package
+
+	TypeParameters []*Parameter
+	Fields         []*Field
+	Functions      []*Function
 }
 
 func (s *Struct) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: s,
-		Scope:  make(map[string]any),
+		Symbol:          s,
+		Scope:           make(map[string]any),
+		TemplatePackage: s.TemplatePackage,
 	}
 	for _, param := range s.TypeParameters {
 		compoundScope.Scope[param.Name] = param
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7ee729b..a90f835 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -4,16 +4,22 @@ type Union struct {
 	Name               string
 	Comment            string
 	TemplateParameters []string
-	TypeParameters     []*Parameter
-	Fields             []*Field
-	Functions          []*Function
+
+	// TemplatePackage is the package of the template, if the type is an instance
+	// of a template from another package.
+	TemplatePackage *Package
+
+	TypeParameters []*Parameter
+	Fields         []*Field
+	Functions      []*Function
 }
 
 func (u *Union) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: u,
-		Scope:  make(map[string]any),
+		Symbol:          u,
+		Scope:           make(map[string]any),
+		TemplatePackage: u.TemplatePackage,
 	}
 	for _, param := range u.TypeParameters {
 		compoundScope.Scope[param.Name] = param
diff --git a/internal/model/model.go b/internal/model/model.go
index 66aacc2..be04347 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -143,14 +143,14 @@ func (m *Model) evaluate() error {
 		return fmt.Errorf("eval enums: %w", err)
 	}
 
-	if err := m.EvaluateUnions(); err != nil {
-		return fmt.Errorf("eval unions: %w", err)
-	}
-
 	if err := m.EvaluateBitmasks(); err != nil {
 		return fmt.Errorf("eval bitmasks: %w", err)
 	}
 
+	if err := m.EvaluateUnions(); err != nil {
+		return fmt.Errorf("eval unions: %w", err)
+	}
+
 	if err := m.EvaluateStructs(); err != nil {
 		return fmt.Errorf("eval structs: %w", err)
 	}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 53f1143..e7121bc 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -420,11 +420,12 @@ func (m *Model) instantiateChoiceCase(pkgScope *ast.Package, choiceCase *ast.Cho
 	return newChoiceCase, nil
 }
 
-func (m *Model) instantiateStruct(pkgScope *ast.Package, templStruct *ast.Struct, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+func (m *Model) instantiateStruct(pkgScope, templatePackage *ast.Package, templStruct *ast.Struct, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
 	var err error
 	structure := &ast.Struct{
-		Name:    instantiatedName,
-		Comment: templStruct.Comment,
+		Name:            instantiatedName,
+		Comment:         templStruct.Comment,
+		TemplatePackage: templatePackage,
 	}
 	// update the scope with the newly created type
 	pkgScope.Structs[structure.Name] = structure
@@ -447,11 +448,12 @@ func (m *Model) instantiateStruct(pkgScope *ast.Package, templStruct *ast.Struct
 	return structure.BuildScope(pkgScope)
 }
 
-func (m *Model) instantiateUnion(pkgScope *ast.Package, templUnion *ast.Union, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+func (m *Model) instantiateUnion(pkgScope, templatePackage *ast.Package, templUnion *ast.Union, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
 	var err error
 	union := &ast.Union{
-		Name:    instantiatedName,
-		Comment: templUnion.Comment,
+		Name:            instantiatedName,
+		Comment:         templUnion.Comment,
+		TemplatePackage: templatePackage,
 	}
 	// update the scope with the newly created type
 	pkgScope.Unions[union.Name] = union
@@ -474,11 +476,12 @@ func (m *Model) instantiateUnion(pkgScope *ast.Package, templUnion *ast.Union, t
 	return union.BuildScope(pkgScope)
 }
 
-func (m *Model) instantiateChoice(pkgScope *ast.Package, templChoice *ast.Choice, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
+func (m *Model) instantiateChoice(pkgScope, templatePackage *ast.Package, templChoice *ast.Choice, templateTypes map[string]*ast.TypeReference, instantiatedName string) error {
 	var err error
 	choice := &ast.Choice{
 		Name:               instantiatedName,
 		Comment:            templChoice.Comment,
+		TemplatePackage:    templatePackage,
 		SelectorExpression: templChoice.SelectorExpression.Instantiate(templateTypes),
 	}
 	// update the scope with the newly created type
@@ -572,6 +575,12 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 		return nil, err
 	}
 
+	// only needed if the template is from another package
+	var templatePackage *ast.Package
+	if templateSymbol.Package != pkgScope.Name {
+		templatePackage = m.Packages[templateSymbol.Package]
+	}
+
 	var templateParameters []string
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
@@ -622,11 +631,11 @@ func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, te
 
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
-		err = m.instantiateStruct(pkgScope, n, templateTypes, instantiatedName)
+		err = m.instantiateStruct(pkgScope, templatePackage, n, templateTypes, instantiatedName)
 	case *ast.Choice:
-		err = m.instantiateChoice(pkgScope, n, templateTypes, instantiatedName)
+		err = m.instantiateChoice(pkgScope, templatePackage, n, templateTypes, instantiatedName)
 	case *ast.Union:
-		err = m.instantiateUnion(pkgScope, n, templateTypes, instantiatedName)
+		err = m.instantiateUnion(pkgScope, templatePackage, n, templateTypes, instantiatedName)
 	}
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e02fb12f0522cc022c94413ac1dfe2915bbf7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 58/66] fix: refuse names that are items of several enums

---
 internal/ast/expression.go |  3 +++
 internal/ast/package.go    | 11 +++++++++++
 internal/ast/scope.go      |  8 ++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e976e32..50f7e43 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -253,6 +253,9 @@ func (expr *Expression) findSymbol(scope *Package) (*SymbolReference, error) {
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
 	symbol, err := expr.findSymbol(scope)
+	if errors.Is(err, ErrAmbiguousName) {
+		return err
+	}
 	if err != nil {
 		return errors.New("symbol not found")
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index c8b7437..1663b23 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -86,6 +86,11 @@ func (p *Package) CollectSymbols() error {
 
 		// add all enum values as symbols
 		for _, enumItem := range value.Items {
+			if other, found := p.LocalSymbols.OtherScope[enumItem.Name]; found && other != enumItem {
+				// items of different enums need the name of the enum
+				p.LocalSymbols.OtherScope[enumItem.Name] = ErrAmbiguousName
+				continue
+			}
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
 		}
 	}
@@ -226,6 +231,8 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	// third, search all other types (enum fields)
 	if typeSymbol, err := p.GetOtherType(name); err == nil {
 		return typeSymbol, nil
+	} else if errors.Is(err, ErrAmbiguousName) {
+		return nil, err
 	}
 	return nil, errors.New("symbol not found")
 }
@@ -307,6 +314,8 @@ func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
 	if symbolRef, err := p.LocalSymbols.GetOtherType(name); err == nil {
 		symbolRef.Package = p.Name
 		return symbolRef, nil
+	} else if errors.Is(err, ErrAmbiguousName) {
+		return nil, err
 	}
 
 	// check all imported scopes
@@ -314,6 +323,8 @@ func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
 		if symbolRef, err := importedPackage.LocalSymbols.GetOtherType(name); err == nil {
 			symbolRef.Package = importedPackage.Name
 			return symbolRef, nil
+		} else if errors.Is(err, ErrAmbiguousName) {
+			return nil, err
 		}
 	}
 	return nil, errors.New("other type not found")
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index d7d22ae..e763d6c 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -6,6 +6,7 @@ import (
 )
 
 var ErrUnknownType = errors.New("unknown type")
+var ErrAmbiguousName = errors.New("name is used by the items of more than one enum")
 
 var rootScope = &RootScope{}
 
@@ -254,8 +255,8 @@ type CompoundScope struct {
 	Scope  map[string]any
 
 	// TemplatePackage is the package of the template, if the compound type is an
-	// instance of a template from another package. The expressions of the template use the names of
-	// that package.
+	// instance of a template from another package. The expressions of the
+	// template use the names of that package.
 	TemplatePackage *Package
 }
 
@@ -300,6 +301,9 @@ func (v *SymbolScope) GetCompoundType(compoundType, name string) (*SymbolReferen
 
 func (v *SymbolScope) GetOtherType(name string) (*SymbolReference, error) {
 	otherSymbol, found := v.OtherScope[name]
+	if otherSymbol == ErrAmbiguousName {
+		return nil, ErrAmbiguousName
+	}
 	if found {
 		return &SymbolReference{
 			Name:   name,
-- 
2.43.0


From 7a3d7a91328a25605cb430949f8a0d00f50cff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 59/66] fix: create the packing contexts of optional objects
 when they are needed

A packed array of a type that contains itself in an optional field made the
creation of the packing contexts recurse until the stack overflowed.
---
 .../generator/templates/packing_context_create.go.tmpl     | 5 ++++-
 .../generator/templates/packing_context_decode.go.tmpl     | 7 +++++++
 internal/generator/templates/packing_context_init.go.tmpl  | 7 +++++++
 packing_context_node.go                                    | 6 ++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/generator/templates/packing_context_create.go.tmpl b/internal/generator/templates/packing_context_create.go.tmpl
index fb774bd..ae92981 100644
--- a/internal/generator/templates/packing_context_create.go.tmpl
+++ b/internal/generator/templates/packing_context_create.go.tmpl
@@ -6,7 +6,10 @@
 field{{ $field.Name }}Node := &zserio.PackingContextNode{}
 contextNode.AddChild(field{{ $field.Name }}Node)
 {{- if not $field.Array }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $native.IsMarshaler $field.IsOptional }}
+        // the context of an optional object is created once there is such an
+        // object, the type may be a recursive one
+    {{- else if $native.IsMarshaler }}
         {{- /* The if IsMarshaler must come before checking if the type is 
         isDeltaPackable, because some marshable types, such es Enums, can also be 
         delta packed */}}
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 640780a..f6750f9 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -85,6 +85,13 @@
    
 
 {{- else if $native.IsMarshaler }}
+    {{- if $field.IsOptional }}
+    if childrenNodes[{{ $index }}].IsEmpty() {
+        if err = {{ $assign_str_rvalue }}.ZserioCreatePackingContext(childrenNodes[{{ $index }}]); err != nil {
+            return err
+        }
+    }
+    {{- end }}
     if err = {{ $assign_str_rvalue }}.UnmarshalZserioPacked(childrenNodes[{{ $index }}], r); err != nil {
         return err
     }
diff --git a/internal/generator/templates/packing_context_init.go.tmpl b/internal/generator/templates/packing_context_init.go.tmpl
index 3968616..b04facd 100644
--- a/internal/generator/templates/packing_context_init.go.tmpl
+++ b/internal/generator/templates/packing_context_init.go.tmpl
@@ -28,6 +28,13 @@
 
     {{- template "decode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name "native" $native }}
     {{- if $native.IsMarshaler }}
+        {{- if $field.IsOptional }}
+        if childrenNodes[{{ $index }}].IsEmpty() {
+            if err := {{ $field_name }}.ZserioCreatePackingContext(childrenNodes[{{ $index }}]); err != nil {
+                return err
+            }
+        }
+        {{- end }}
         if err := {{ $field_name }}.ZserioInitPackingContext(childrenNodes[{{ $index }}]); err != nil {
             return err
         }
diff --git a/packing_context_node.go b/packing_context_node.go
index 65aad75..053286b 100644
--- a/packing_context_node.go
+++ b/packing_context_node.go
@@ -24,6 +24,12 @@ func (context *PackingContextNode) GetChildren() []*PackingContextNode {
 	return context.children
 }
 
+// IsEmpty returns true if neither a delta context nor any children have been
+// added to the packing context.
+func (context *PackingContextNode) IsEmpty() bool {
+	return context.Context == nil && len(context.children) == 0
+}
+
 // HasContext reurns true if the packing context has a delta context.
 func (context *PackingContextNode) HasContext() bool {
 	return (context.Context != nil)
-- 
2.43.0


From 101c8dd8894442d73111cdec14a889ca35259e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 60/66] fix: refuse colliding Go names on standard output as
 well

---
 internal/generator/gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 5f5c386..07213c3 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -522,6 +522,9 @@ func generatePackage(rootPath string, pkg *ast.Package, opts *options) ([]source
 			}
 		}
 
+		if err := checkDeclarations([]sourceFile{{path: "stdout", code: out.Bytes()}}); err != nil {
+			return nil, fmt.Errorf("package %s: %w", pkg.Name, err)
+		}
 		return nil, writeGoSource(os.Stdout, out.Bytes(), opts.doNotFormatSource)
 	}
 
-- 
2.43.0


From c20a41f171c5632bc385a3a606dd80ea7dcadf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 61/66] fix: allow ternary expressions of an item and a value
 of an enum

---
 internal/ast/expression.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 50f7e43..df2dd16 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -223,6 +223,14 @@ func (expr *Expression) isTypeName() bool {
 	return false
 }
 
+// isEnumItem returns if an expression is an item of an enum, such as Color.RED.
+func (expr *Expression) isEnumItem() bool {
+	if expr.Type == parser.ZserioParserLPAREN {
+		return expr.Operand1.isEnumItem()
+	}
+	return expr.Type == parser.ZserioParserDOT && expr.Operand1.ResultType == ExpressionTypeEnum
+}
+
 // CheckIsValue returns an error if an expression does not have a value.
 func (expr *Expression) CheckIsValue() error {
 	if expr.isTypeName() || expr.ResultType == ExpressionTypeArray || expr.ResultType == ExpressionTypeFunction {
@@ -834,6 +842,12 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	// If the operands are of different numeric types, the result is of a type
 	// that fits both.
 	if expr.Operand2.ResultType != expr.Operand3.ResultType || expr.ResultType == ExpressionTypeInteger || expr.ResultType == ExpressionTypeFloat {
+		if expr.Operand2.isEnumItem() && expr.Operand3.ResultType == ExpressionTypeEnum ||
+			expr.Operand2.ResultType == ExpressionTypeEnum && expr.Operand3.isEnumItem() {
+			// the items of an enum are integers
+			expr.ResultType = ExpressionTypeInteger
+			return nil
+		}
 		var err error
 		expr.ResultType, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand2, expr.Operand3)
 		if err != nil {
-- 
2.43.0


From f05ada4c5ea04b39e0cbbf5747539648f6798cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:01 +0000
Subject: [PATCH 62/66] fix: refuse constant divisors of zero and negative
 constant indexes

---
 internal/ast/expression.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index df2dd16..55689af 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -436,6 +436,9 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.Operand2.ResultType != ExpressionTypeInteger {
 		return errors.New("array index expression must be an integer")
 	}
+	if expr.Operand2.FullyResolved && expr.Operand2.ResultIntValue < 0 && !isUint64(expr.Operand2.NativeZserioType) {
+		return errors.New("negative array index")
+	}
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
@@ -614,6 +617,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		}
 		op1 := expr.Operand1.ResultIntValue
 		op2 := expr.Operand2.ResultIntValue
+		if (expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) && expr.Operand2.FullyResolved && op2 == 0 {
+			return errors.New("division by zero")
+		}
 		if !expr.Operand1.FullyResolved || !expr.Operand2.FullyResolved {
 			// If the expression operands are not a fully defined to a constant,
 			// we fill in some dummy values for the sake of checking the correct
@@ -631,18 +637,12 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
 		case parser.ZserioParserDIVIDE:
-			if op2 == 0 {
-				return errors.New("division by zero")
-			}
 			if isUint64(expr.NativeZserioType) {
 				expr.ResultIntValue = int64(uint64(op1) / uint64(op2))
 			} else {
 				expr.ResultIntValue = op1 / op2
 			}
 		case parser.ZserioParserMODULO:
-			if op2 == 0 {
-				return errors.New("division by zero")
-			}
 			if isUint64(expr.NativeZserioType) {
 				expr.ResultIntValue = int64(uint64(op1) % uint64(op2))
 			} else {
-- 
2.43.0


From be6a5b242fab926d0ce5c4cc94c3025c3b3be1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 63/66] fix: keep comments of schemas from acting as Go
 directives

---
 internal/visitor/visitor.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1742d0e..4ce3fca 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -132,7 +132,7 @@ out:
 	for _, hiddenToken := range hidden {
 		switch hiddenToken.GetTokenType() {
 		case parser.ZserioParserDOC_COMMENT, parser.ZserioParserMARKDOWN_COMMENT, parser.ZserioParserBLOCK_COMMENT, parser.ZserioParserLINE_COMMENT:
-			comments = append(comments, hiddenToken.GetText())
+			comments = append(comments, goComment(hiddenToken.GetText()))
 		default:
 			break out
 		}
@@ -140,6 +140,23 @@ out:
 	return strings.Join(comments, "\n")
 }
 
+// goComment returns a comment of a schema as a comment of the generated code.
+// There it must neither be a directive for the Go tools, nor contain characters
+// that are not allowed in Go source.
+func goComment(text string) string {
+	text = strings.NewReplacer("\x00", "", "\ufeff", "").Replace(text)
+	marker, content := text[:2], text[2:]
+	for _, directive := range []string{"go:", "line ", "export ", "extern "} {
+		if strings.HasPrefix(content, directive) {
+			content = " " + content
+		}
+	}
+	if strings.HasPrefix(strings.TrimSpace(content), "+build") {
+		content = strings.Replace(content, "+build", "+ build", 1)
+	}
+	return marker + content
+}
+
 func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) any {
 	children := ctx.GetChildren()
 	parts := []string{}
-- 
2.43.0


From b4ab0a0053adb3cdf99d433d2ba09062d569a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 64/66] fix: keep valueof of items above the range of int64
 unsigned

---
 internal/ast/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 55689af..77229a4 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -314,6 +314,9 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if expr.FullyResolved && isUint64(expr.Operand1.NativeZserioType) {
+		expr.NativeZserioType = expr.Operand1.NativeZserioType
+	}
 	return nil
 }
 
-- 
2.43.0


From 40ab4675e779e95d8d4012879c6972beed1918ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 65/66] fix: refuse values out of the range of enums and
 bitmasks

---
 internal/ast/choice.go |  8 +++++++-
 internal/ast/const.go  | 24 ++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 674167c..a830ab6 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -161,13 +161,19 @@ func (choice *Choice) Evaluate(p *Package) error {
 			}
 		}
 	}
+	selectorType := choice.SelectorExpression.NativeZserioType
+	if resultType := choice.SelectorExpression.ResultType; resultType == ExpressionTypeEnum || resultType == ExpressionTypeBitmask {
+		if itemsType, err := choice.selectorType(); err == nil {
+			selectorType = itemsType
+		}
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 
 			if err := condition.Condition.Evaluate(p); err != nil {
 				return err
 			}
-			if selectorType := choice.SelectorExpression.NativeZserioType; selectorType != nil {
+			if selectorType != nil {
 				if err := checkValueRange(p, selectorType, condition.Condition); err != nil {
 					return err
 				}
diff --git a/internal/ast/const.go b/internal/ast/const.go
index c280553..139ae6c 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -156,7 +156,7 @@ func isSameCompound(scope *Package, typeRef *TypeReference, value *Expression) b
 // checkValueRange returns an error if the value of an expression is not
 // representable in an integer type.
 func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression) error {
-	if value.ResultType != ExpressionTypeInteger {
+	if value.ResultType != ExpressionTypeInteger && value.ResultType != ExpressionTypeBitmask {
 		return nil
 	}
 	originalType, err := scope.GetOriginalType(typeRef)
@@ -164,7 +164,7 @@ func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression)
 		return err
 	}
 	if originalType.IsMarshaler {
-		return nil
+		return checkItemRange(scope, originalType.Type, value)
 	}
 	min, max, ok := integerTypeRange(originalType.Type)
 	if !ok {
@@ -176,3 +176,23 @@ func checkValueRange(scope *Package, typeRef *TypeReference, value *Expression)
 	}
 	return nil
 }
+
+// checkItemRange returns an error if the value of an expression is not
+// representable in the type of the items of an enum or bitmask.
+func checkItemRange(scope *Package, typeRef *TypeReference, value *Expression) error {
+	itemScope, err := scope.GetImportedScope(typeRef.Package)
+	if err != nil {
+		return err
+	}
+	symbol, err := itemScope.GetType(typeRef.Name)
+	if err != nil {
+		return err
+	}
+	switch n := symbol.Symbol.(type) {
+	case *Enum:
+		return checkValueRange(itemScope, n.Type, value)
+	case *BitmaskType:
+		return checkValueRange(itemScope, n.Type, value)
+	}
+	return nil
+}
-- 
2.43.0


From 9556f032525079ebd54ec55ce524bea7cd9bce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:42 +0000
Subject: [PATCH 66/66] fix: read octal escapes of strings as the grammar
 defines them

---
 internal/ast/expression.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 77229a4..4d5b11f 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -975,6 +975,20 @@ func unescapeString(text string) (string, error) {
 			text = text[4:]
 			continue
 		}
+		if strings.HasPrefix(text, "\\0") {
+			// a zero, and up to three octal digits
+			end := 2
+			for end < len(text) && text[end] >= '0' && text[end] <= '7' && (end < 4 || end == 4 && text[2] <= '3') {
+				end++
+			}
+			char, err := strconv.ParseUint(text[1:end], 8, 8)
+			if err != nil {
+				return "", err
+			}
+			result.WriteRune(rune(char))
+			text = text[end:]
+			continue
+		}
 		char, _, tail, err := strconv.UnquoteChar(text, '"')
 		if err != nil {
 			return "", err
-- 
2.43.0

