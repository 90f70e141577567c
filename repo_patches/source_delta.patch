From f7679b5084b53e264dce08daff7f4d77160e7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/79] fix: refuse pool allocations whose size does not fit in
 32 bits

The requested size was truncated to 32 bits and added without an overflow
check, so a huge request was served from the pool with a block that was far
too small (and then zeroed past the end of the pool).
---
 PlatformSupport/PlatformSupport.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..d99442e 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,12 +35,15 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
-	uint32_t required = (uint32_t)size;
-	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	uint32_t available = memorySize - memoryUsed;
+	if (size > available)
+		return(nullptr);
+	uint32_t required = (uint32_t)Align(size, sizeof(double));
+	if (required > available)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From d012943d34f4ca21ff07cfc8a2ee9115778ecd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 02/79] fix: Array.Clear and CopyTo reject ranges outside the
 array

The range check built its exceptions without throwing them, so Clear wrote
outside the array.
---
 DotNetLibrary/src/Array.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..d69c76d 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,11 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
-		if (amountOfElements < 0)
-			new ArgumentNullException();
-		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+		if (amountOfElements < 0 || startingIndex < 0)
+			throw new IndexOutOfRangeException();
+		if (amountOfElements > array->dimension1Size - startingIndex)
+			throw new IndexOutOfRangeException();
 	}
 }
-- 
2.43.0


From f87f5928b74116afe8fe20903f72030288404b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 03/79] fix: Array.Copy copes with overlapping ranges of one
 array

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index d69c76d..34434da 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -103,7 +103,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From ac2bdf5e3ed01ad365844234f5c891b0b83ce249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 04/79] fix: Array.Copy range check no longer overflows

sourceIndex + length wrapped for large indexes, so the check passed and the
copy ran outside both arrays.
---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 34434da..a6e1795 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -94,7 +94,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (length > sourceArray->totalElementCount - sourceIndex || length > destinationArray->totalElementCount - destinationIndex)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
-- 
2.43.0


From dd120c706728ff85b27b51abb2e76668d2f95570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 05/79] fix: destroying an array that wraps external memory
 leaves that memory alone

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..8e381eb 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		bool ownsData;					// was data allocated by this array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index a6e1795..abcf819 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
@@ -65,8 +67,8 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
-			delete data;
+		if (ownsData && data != nullptr)
+			delete[] data;
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From 21fec4090f8a6cc20ca15571ee2c4b06edc97523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 06/79] fix: Buffer.GetByte and SetByte reject negative indexes

---
 DotNetLibrary/src/Buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..770a6da 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -57,13 +57,13 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		if (index >= ByteLength(array) || index < 0)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From d6fd40b44670dd5a056acac4d2cee9c1c54b53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 07/79] fix: Buffer.BlockCopy of no bytes works with empty
 arrays

---
 DotNetLibrary/src/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 770a6da..f0b3081 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -40,6 +40,8 @@ namespace DotnetLibrary
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
 		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From 867556b330742bb418753e3fa958281dc9c3461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 08/79] fix: BitConverter.ToChar does not sign extend
 characters above 0x7fff

---
 DotNetLibrary/src/BitConverter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..63e87bd 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
-		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		UInt16 ret;
+		// treat Char as UInt16 because on some systems Char is 4 bytes but .Net isn't
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 74114eaeb5e861c9e33fb00441a843c3c30769f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 09/79] fix: StringBuilder.Append(Char, count) makes room
 beyond the current content

It only ensured a capacity of count, ignoring the characters already there,
and wrote past the end of the buffer.
---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..aebcd9d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
-- 
2.43.0


From c0686bd04f3a6255592968906fba3a9e460ccaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 10/79] fix: StringBuilder capacity rounding never exceeds
 MaxCapacity

Rounding up to a multiple of the default capacity could pass MaxCapacity, and
overflowed for capacities close to Int32.MaxValue.
---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index aebcd9d..e259190 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -130,10 +130,9 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
-			newArray = new Char[capacity + 1];
+				capacity += Math::Min(DefaultCapacity - partial, maxCapacity - capacity);
+			newArray = new Char[(size_t) capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
 				delete chunkChars;
-- 
2.43.0


From 1576a20489a74ef3553bee699100058cb935e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 11/79] fix: StringBuilder can be constructed from a null or
 empty string

A null string was dereferenced, and an empty range was rejected because the
address of its first character was taken with an index check.
---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e259190..d88011a 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
 		currentLength = length;
 	}
-- 
2.43.0


From f57270a3d86576388ec5cdb1a3f84c91ae699779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 12/79] fix: growing StringBuilder.Length pads with null
 characters

Characters left behind by an earlier Remove or Replace showed up again.
---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d88011a..732be7a 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -108,6 +108,10 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, delta * sizeof(Char));
+		}
+		chunkChars[newLength] = 0;
 		currentLength = newLength;
 	}
 	Int32 StringBuilder::get_Capacity() {
-- 
2.43.0


From 2ae6e2f7c2210aa020cdf5a5779d349ddc036996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 13/79] fix: StringBuilder.Capacity cannot be set below Length

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 732be7a..fbd16d1 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -124,6 +124,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From 6c29490376588f62016f6ce587777456ea7355da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 14/79] fix: StringBuilder.Equals compares all characters

The comparison stopped at the first null character.
---
 DotNetLibrary/src/StringBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index fbd16d1..5e7128c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -333,7 +333,9 @@ namespace DotnetLibrary
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
 		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		if (sb->currentLength != currentLength)
+			return (false);
+		return memcmp(sb->chunkChars, chunkChars, currentLength * sizeof(Char)) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0


From e6da9fd0fd7a8fc31706ae0e0732a993a90365d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 15/79] fix: StringBuilder.ToString(start, length) validates
 the range

A negative or overflowing length got past the check, and the empty range at
the end was rejected.
---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 5e7128c..315dcbe 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -179,9 +179,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From 39ef3772cd16b1c398206c445c8cc1438e0c7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 16/79] fix: StringBuilder.Remove moves the overlapping tail
 with memmove

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 315dcbe..0c44f9f 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -348,7 +348,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From d23e47e7c0427999c6877e20070740c437fcdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 17/79] fix: StringBuilder.Insert rejects negative indexes

An index of -1 appended, and lower ones wrote before the buffer.
---
 DotNetLibrary/include/StringBuilder.h | 12 +++++++++
 DotNetLibrary/src/StringBuilder.cpp   | 37 +++++++++++++++++----------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..e6bc013 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -36,6 +36,18 @@ namespace DotnetLibrary
 		Int32 currentCapacity;	// total size of the array
 		Int32 currentLength;	// current offset into array for next insert
 		Int32 maxCapacity;		// max capacity for this builder
+		/*!
+		 * Verify that index is a valid place to insert at
+		 * @param index where to insert
+		 */
+		void VerifyInsertIndex(Int32 index);
+		/*!
+		 * Insert value type into builder at index
+		 * @param index where to insert
+		 * @param value to insert
+		 * @return pointer to this builder
+		 */
+		StringBuilder* InsertValue(Int32 index, ValueType& value);
 	public:
 		StringBuilder();
 		StringBuilder(Int32 capacity);
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0c44f9f..09bc39a 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -195,7 +195,7 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
@@ -353,19 +353,29 @@ namespace DotnetLibrary
 		chunkChars[currentLength] = 0;
 		return this;
 	}
+	void StringBuilder::VerifyInsertIndex(Int32 index) {
+		if (index < 0 || index > currentLength) {
+			throw new IndexOutOfRangeException();
+		}
+	}
+	StringBuilder* StringBuilder::InsertValue(Int32 index, ValueType& value) {
+		VerifyInsertIndex(index);
+		return (Append(value, index));
+	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
 		BooleanValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
 		ByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
 		CharValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
+		VerifyInsertIndex(index);
 		if (values == nullptr) {
 			return (this);
 		}
@@ -389,24 +399,25 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
 		DoubleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
 		Int16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
 		Int32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
 		Int64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
 		return (Insert(index, value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		VerifyInsertIndex(index);
 		for (int i = 0; i < count; ++i) {
 			Append((Char*) value->Address(0), value->get_Length(), index);
 		}
@@ -414,23 +425,23 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
 		SByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
 		SingleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
 		UInt16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
 		UInt32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
 		UInt64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Replace(const Char oldChar, const Char newChar) {
 		return Replace(oldChar, newChar, 0, currentLength);
-- 
2.43.0


From 2bf68cc29467372edec4aaf91998d6560b001da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 18/79] fix: StringBuilder.Insert handles null, empty and too
 long strings

Inserting an empty string was rejected, a null one crashed, and a repeated
insert that does not fit left part of the copies behind.
---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 09bc39a..542a5ca 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -418,6 +418,12 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
 		VerifyInsertIndex(index);
+		if (value == nullptr || value->get_Length() == 0) {
+			return (this);
+		}
+		if (count > 0 && value->get_Length() > (maxCapacity - currentLength) / count) {
+			throw new ArgumentOutOfRangeException();
+		}
 		for (int i = 0; i < count; ++i) {
 			Append((Char*) value->Address(0), value->get_Length(), index);
 		}
-- 
2.43.0


From f4e8e12db0b80d83919d0ae261c3f22387cfeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 19/79] fix: appending or inserting null leaves a StringBuilder
 unchanged

Null strings and objects were dereferenced.
---
 DotNetLibrary/src/StringBuilder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 542a5ca..a04746c 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -259,6 +259,9 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -276,6 +279,11 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr) {
+			if (startIndex == 0 && charCount <= 0)
+				return (this);
+			throw new ArgumentNullException();
+		}
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
@@ -414,7 +422,7 @@ namespace DotnetLibrary
 		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
-		return (Insert(index, value->ToString()));
+		return (Insert(index, value == nullptr ? nullptr : value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
 		VerifyInsertIndex(index);
-- 
2.43.0


From 1855c58cd15db071ba857da2055cb896e3e8ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 20/79] fix: String.Contains of an empty or null string

Looking for an empty string never returned, and a null one crashed.
---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 DotNetLibrary/src/StringDotNet.cpp  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index a04746c..3507e2b 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -157,6 +157,8 @@ namespace DotnetLibrary
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
 		Int32 amount = 0;
+		if (subString->get_Length() == 0)
+			return (amount);
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
 		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
 		for (int i = startIndex; i < endIndex;) {
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..9bf8121 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -188,6 +188,10 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring == nullptr)
+			throw new ArgumentNullException();
+		if (substring->length == 0)
+			return (true);
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
-- 
2.43.0


From 8eacb04c193ca602ccfba50940d9e719340e3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 21/79] fix: String.StartsWith and EndsWith with a longer
 argument

They compared characters outside the string.
---
 DotNetLibrary/src/StringDotNet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9bf8121..904aac3 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -230,6 +230,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -520,6 +523,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From ee6faadd388a329408b759a82a355d40989e27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 22/79] fix: String constructors stay within their source

Copying the rest of a character string from an index read past its end, and
constructing from a null array dereferenced it.
---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 904aac3..3e7d08f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
 		if (startIndex < 0 || startIndex > wcslen(string))
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string) - startIndex;
 
 		allocate = true;
 		this->length = length;
@@ -53,7 +53,7 @@ namespace DotnetLibrary
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
 		if (length < 0) {
-			length = values->get_Length();
+			length = values == nullptr ? 0 : values->get_Length();
 		}
 		if (values == nullptr || length == 0) {
 			this->length = 0;
-- 
2.43.0


From c7c52e6fc22968ebcdff4a43256d8cd87b6989ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 23/79] fix: String.CopyTo of no characters is valid at the end
 of either side

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 3e7d08f..240a1d4 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -214,6 +214,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From dc0613e54a5e2f28eac4f294ae846529dbc5097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 24/79] fix: String.IndexOf(Char, start, count) rejects ranges
 outside the string

A start past the end or a negative count was taken as an empty range.
---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 240a1d4..8de3eb4 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -284,6 +284,8 @@ namespace DotnetLibrary
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
-- 
2.43.0


From eadfa7d2d9292af39cd24e461f2f1b9470fd6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 25/79] fix: String.IndexOf(String, start, count) only finds
 matches inside the range

Matches that begin or end after the range were reported.
---
 DotNetLibrary/src/StringDotNet.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8de3eb4..9840775 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -312,12 +312,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		Int32 lastIndex = startIndex + count - value->get_Length();
+		for (Int32 index = startIndex; index <= lastIndex; ++index) {
+			if (wmemcmp(get_Buffer() + index, value->get_Buffer(), value->get_Length()) == 0)
+				return (index);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From 66c9ccf23c55410b1d814378021100623b506cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 26/79] fix: String.LastIndexOf searches exactly the given
 range

A match had only to begin inside the range, and a range reaching outside the
string was noticed only when the search got there.
---
 DotNetLibrary/src/StringDotNet.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9840775..8902fda 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -430,6 +430,8 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -444,14 +446,13 @@ namespace DotnetLibrary
 			startIndex = length - 1;
 		if (count < 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+			if (i + value->get_Length() - 1 <= startIndex
+			        && wmemcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length()) == 0)
+				return (i);
 		}
 		return -1;
 	}
@@ -465,6 +466,8 @@ namespace DotnetLibrary
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			for (Int32 arrayIndex = 0; arrayIndex < arr->get_Length(); ++arrayIndex) {
-- 
2.43.0


From ef9c5e4d54e4db6e1a66098d92e88f4f7137271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 27/79] fix: String.ToCharArray rejects a start past the end

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8902fda..32ac482 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -564,7 +564,7 @@ namespace DotnetLibrary
 		if (length < 0) {
 			length = get_Length() - startIndex;
 		}
-		if (startIndex > get_Length() - length) {
+		if (length < 0 || startIndex > get_Length() - length) {
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 endIndex = startIndex + length;
-- 
2.43.0


From 28cd51e8aadc6867182f64f65b4787d3352edf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 28/79] fix: String comparison is a total order

Only as many characters as the first string has were compared, so a string
equalled everything it is a prefix of.  Any upper case letter came after any
lower case one but not consistently with the characters between them, so the
order was not transitive.  Null strings and indexes outside the strings were
dereferenced.
---
 DotNetLibrary/include/StringDotNet.h | 25 ++++++++++
 DotNetLibrary/src/StringDotNet.cpp   | 72 +++++++++++++++++-----------
 2 files changed, 70 insertions(+), 27 deletions(-)

diff --git a/DotNetLibrary/include/StringDotNet.h b/DotNetLibrary/include/StringDotNet.h
index 277ae76..5eefb6d 100644
--- a/DotNetLibrary/include/StringDotNet.h
+++ b/DotNetLibrary/include/StringDotNet.h
@@ -33,6 +33,31 @@ namespace DotnetLibrary
 		Char* characterData;
 		Int32 length;
 		Boolean allocate;
+		/*!
+		 * Compare two ranges of characters
+		 * @param s1 characters of range 1
+		 * @param length1 amount of characters in range 1
+		 * @param s2 characters of range 2
+		 * @param length2 amount of characters in range 2
+		 * @param ignoreCase true if ignore case
+		 * @param doOrdinal do ordinal compare
+		 * @return -1 < 0 > 1
+		 */
+		static Int32 CompareRange(const Char* s1, Int32 length1, const Char* s2, Int32 length2, Boolean ignoreCase,
+		                          Boolean doOrdinal);
+		/*!
+		 * Compare at most length characters of two strings
+		 * @param s1 string 1
+		 * @param index1 index in string 1
+		 * @param s2 string 2
+		 * @param index2 index in string 2
+		 * @param length most characters to compare
+		 * @param ignoreCase true if ignore case
+		 * @param doOrdinal do ordinal compare
+		 * @return -1 < 0 > 1
+		 */
+		static Int32 CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase,
+		                          Boolean doOrdinal);
 	public:
 		String(const Char* string);
 		String(const Char* string, Int32 startIndex, Int32 length = -1);
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 32ac482..ea9b5ff 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -104,45 +104,63 @@ namespace DotnetLibrary
 			throw new IndexOutOfRangeException();
 		return (&characterData[index1]);
 	}
-	Int32 String::Compare(Char* s1, Int32 s1Index, Char* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
-	                      Boolean doOrdinal) {
-		Char* str1 = s1 + s1Index;
-		Char* str2 = s2 + s2Index;
-		Char c1 = 0;
-		Char c2 = 0;
-		while (length > 0) {
-			if (ignoreCase) {
-				c1 = towlower(*str1++);
-				c2 = towlower(*str2++);
-			}
-			else {
-				c1 = *str1++;
-				c2 = *str2++;
-				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
+	Int32 String::CompareRange(const Char* s1, Int32 length1, const Char* s2, Int32 length2, Boolean ignoreCase,
+	                           Boolean doOrdinal) {
+		Int32 caseDifference = 0;
+		for (Int32 i = 0; i < length1 && i < length2; ++i) {
+			Char c1 = s1[i];
+			Char c2 = s2[i];
+			if (c1 == c2)
+				continue;
+			if (ignoreCase || !doOrdinal) {
+				Char lower1 = towlower(c1);
+				Char lower2 = towlower(c2);
+				if (lower1 == lower2) {
+					// case only matters between otherwise equal strings, lower case comes first
+					if (caseDifference == 0 && !ignoreCase)
+						caseDifference = c1 == lower1 ? -1 : 1;
+					continue;
 				}
+				c1 = lower1;
+				c2 = lower2;
 			}
-			if (c1 == L'\0' || c1 != c2)
-				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
-			--length;
+			return c1 > c2 ? 1 : -1;
 		}
-		return 0;
+		if (length1 != length2)
+			return length1 > length2 ? 1 : -1;
+		return caseDifference;
+	}
+	Int32 String::CompareRange(String* s1, Int32 index1, String* s2, Int32 index2, Int32 length, Boolean ignoreCase,
+	                           Boolean doOrdinal) {
+		if (s1 == nullptr || s2 == nullptr)
+			return s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1);
+		if (index1 < 0 || index1 > s1->length || index2 < 0 || index2 > s2->length || length < 0)
+			throw new ArgumentOutOfRangeException();
+		return CompareRange(s1->characterData + index1, Math::Min(length, s1->length - index1), s2->characterData + index2,
+		                    Math::Min(length, s2->length - index2), ignoreCase, doOrdinal);
+	}
+	Int32 String::Compare(Char* s1, Int32 s1Index, Char* s2, Int32 s2Index, Int32 length, Boolean ignoreCase,
+	                      Boolean doOrdinal) {
+		Int32 length1 = 0;
+		while (length1 < length && s1[s1Index + length1] != 0)
+			++length1;
+		Int32 length2 = 0;
+		while (length2 < length && s2[s2Index + length2] != 0)
+			++length2;
+		return CompareRange(s1 + s1Index, length1, s2 + s2Index, length2, ignoreCase, doOrdinal);
 	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareRange(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		return (CompareRange(s1, 0, s2, 0, Int32Value::MaxValue, false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareRange(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
-- 
2.43.0


From 3331af0e08a60150721728ab4749b41d79e188c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 29/79] fix: String.CompareTo(Object) returns the result of the
 comparison

---
 DotNetLibrary/src/StringDotNet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ea9b5ff..25c5e46 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -167,8 +167,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From 4d10670c7dea00be66946a516e6c4fd4b5158e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 30/79] fix: String.Concat and Join reject arrays of values
 that are not objects

The check looked at the type of the array object instead of its elements, so
the elements of any array were used as object pointers.
---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 25c5e46..3d6eac1 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -178,7 +178,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -396,7 +396,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
@@ -423,7 +423,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
-- 
2.43.0


From ecc3cdc0db499fb3aee9a8595700aaf8b5234102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 31/79] fix: string equality, Substring and Trim treat null
 characters like any other

Equality ignored everything after the first null character, and taking a part
that starts behind one was rejected.
---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 3d6eac1..e885f90 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -268,7 +268,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return wmemcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length()) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
@@ -572,7 +572,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -674,7 +674,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From ca1a8400f37204ccaca46f0eda755e6760b89449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 32/79] fix: formatting text into a buffer leaves room for the
 terminator

A text exactly as long as the buffer had its terminator written behind it.
---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 3507e2b..45bc072 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -188,7 +188,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e885f90..4be1294 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -684,13 +684,13 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From 3acf76d71c4e4a64d8926add8e4d452101d56f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 33/79] fix: the static String.Equals overloads agree that null
 equals null

---
 DotNetLibrary/src/StringDotNet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 4be1294..79bedca 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -279,12 +279,16 @@ namespace DotnetLibrary
 		return !op_Inequality(this, object);
 	}
 	Boolean String::Equals(String* object, Object* object2) {
-		if (object2 == nullptr || object2->GetRawDataType() != StringType)
+		if (object2 == nullptr)
+			return (object == nullptr);
+		if (object2->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality(object, (String*) object2);
 	}
 	Boolean String::Equals(Object* object, String* object2) {
-		if (object == nullptr || object->GetRawDataType() != StringType)
+		if (object == nullptr)
+			return (object2 == nullptr);
+		if (object->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality((String*) object, object2);
 	}
-- 
2.43.0


From 450f7b3a1a9678cfefebe4cce615118fd847ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 34/79] fix: integer parsing checks everything behind the
 digits

Only the first character behind the digits was looked at, so '1 2' was read as
1, and the character behind the text was read even when there was none left.
---
 DotNetLibrary/src/UInt64Value.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..63dccc5 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -116,13 +116,13 @@ namespace DotnetLibrary
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
-		while (*source != 0 && sourceLength > 0) {
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
 			++source;
 			--sourceLength;
 		}
-		if (*source != 0 && sourceLength > 0) {
+		if (sourceLength > 0 && *source != 0) {
 			if (*source == L'-') {
 				sign = -1;
 				++source;
@@ -133,7 +133,7 @@ namespace DotnetLibrary
 				--sourceLength;
 			}
 		}
-		while (*source != 0 && sourceLength > 0) {
+		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
 			result = 10 * result + *source - '0';
@@ -141,8 +141,12 @@ namespace DotnetLibrary
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
-			gotNumber = false;
+		while (sourceLength > 0) {
+			if (!CharValue::IsWhiteSpace(*source))
+				gotNumber = false;
+			++source;
+			--sourceLength;
+		}
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 6e52b719c591fe756a53d730b9d8a09a891ae26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 35/79] fix: integer Parse and TryParse accept exactly the
 values of their type

Values that do not fit in 64 bits wrapped around, Int64 had no range check at
all, the check of negative values compared the magnitude, negative values of
unsigned types wrapped, and TryParse threw for null and left a partial result
when it failed.
---
 DotNetLibrary/include/UInt64Value.h | 28 ++++++++++++++++
 DotNetLibrary/src/ByteValue.cpp     | 15 ++-------
 DotNetLibrary/src/Int16Value.cpp    | 21 ++----------
 DotNetLibrary/src/Int32Value.cpp    | 21 ++----------
 DotNetLibrary/src/Int64Value.cpp    | 13 ++------
 DotNetLibrary/src/SByteValue.cpp    | 21 ++----------
 DotNetLibrary/src/UInt16Value.cpp   | 15 ++-------
 DotNetLibrary/src/UInt32Value.cpp   | 15 ++-------
 DotNetLibrary/src/UInt64Value.cpp   | 51 +++++++++++++++++++++--------
 9 files changed, 83 insertions(+), 117 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..fcba5d3 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -168,6 +168,34 @@ namespace DotnetLibrary
 		 * @return true if good parse
 		 */
 		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
+		/*!
+		 * Try parse internal
+		 * @param source of text
+		 * @param sourceLength length of text
+		 * @param result of parse
+		 * @param sign sign of value
+		 * @param overflow set if number does not fit into result
+		 * @return true if text is a number
+		 */
+		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign,
+		                                Boolean& overflow);
+		/*!
+		 * Parse value in a range from string
+		 * @param source of text
+		 * @param lowest magnitude of lowest value in range
+		 * @param highest value in range
+		 * @return value, as two's complement if it is negative
+		 */
+		static UInt64 ParseInRange(String* source, UInt64 lowest, UInt64 highest);
+		/*!
+		 * Try parse value in a range from string
+		 * @param source of text
+		 * @param lowest magnitude of lowest value in range
+		 * @param highest value in range
+		 * @param result of parse, as two's complement if it is negative, or 0 if it failed
+		 * @return true if good parse
+		 */
+		static Boolean TryParseInRange(String* source, UInt64 lowest, UInt64 highest, UInt64& result);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..76314be 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -86,22 +86,11 @@ namespace DotnetLibrary
 #endif
 	}
 	Byte ByteValue::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
-			throw new OverflowException();
-		return (value);
+		return ((Byte) UInt64Value::ParseInRange(stringToParse, 0, MaxValue));
 	}
 	bool ByteValue::TryParse(String* stringToParse, Byte& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
-			goodNumber = false;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, 0, MaxValue, value);
 		result = (Byte) value;
 		return (goodNumber);
 	}
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..70856d3 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -87,27 +87,12 @@ namespace DotnetLibrary
 #endif
 	}
 	Int16 Int16Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
-			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
-			throw new OverflowException();
-		return ((Int16) value * sign);
+		return ((Int16) UInt64Value::ParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue));
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
-			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
-			goodNumber = false;
-		result = (Int16) value * sign;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue, value);
+		result = (Int16) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..b9ad3d2 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -88,27 +88,12 @@ namespace DotnetLibrary
 #endif
 	}
 	Int32 Int32Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
-			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
-			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) UInt64Value::ParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
-			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
-			goodNumber = false;
-		result = (Int32) value * sign;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue, value);
+		result = (Int32) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..a036707 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -88,19 +88,12 @@ namespace DotnetLibrary
 #endif
 	}
 	Int64 Int64Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		return ((Int64) value * sign);
+		return ((Int64) UInt64Value::ParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue));
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		result = (Int64) value * sign;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue, value);
+		result = (Int64) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..56d883b 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -88,27 +88,12 @@ namespace DotnetLibrary
 #endif
 	}
 	SByte SByteValue::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
-			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
-			throw new OverflowException();
-		return ((SByte) value * sign);
+		return ((SByte) UInt64Value::ParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue));
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
-			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
-			goodNumber = false;
-		result = (SByte) value * sign;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, (UInt64) MaxValue + 1, MaxValue, value);
+		result = (SByte) value;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..ad04d5b 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -88,22 +88,11 @@ namespace DotnetLibrary
 #endif
 	}
 	UInt16 UInt16Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (value > MaxValue)
-			throw new OverflowException();
-		return ((UInt16) value * sign);
+		return ((UInt16) UInt64Value::ParseInRange(stringToParse, 0, MaxValue));
 	}
 	bool UInt16Value::TryParse(String* stringToParse, UInt16& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
-			goodNumber = false;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, 0, MaxValue, value);
 		result = (UInt16) value;
 		return (goodNumber);
 	}
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..f3e2106 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -88,22 +88,11 @@ namespace DotnetLibrary
 #endif
 	}
 	UInt32 UInt32Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (value > MaxValue)
-			throw new OverflowException();
-		return ((UInt32) value * sign);
+		return ((UInt32) UInt64Value::ParseInRange(stringToParse, 0, MaxValue));
 	}
 	bool UInt32Value::TryParse(String* stringToParse, UInt32& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
-			goodNumber = false;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, 0, MaxValue, value);
 		result = (UInt32) value;
 		return (goodNumber);
 	}
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 63dccc5..9ec2b16 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -88,22 +88,11 @@ namespace DotnetLibrary
 #endif
 	}
 	UInt64 UInt64Value::Parse(String* stringToParse) {
-		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			throw new FormatException();
-		if (value > MaxValue)
-			throw new OverflowException();
-		return ((UInt64) value);
+		return ((UInt64) UInt64Value::ParseInRange(stringToParse, 0, MaxValue));
 	}
 	bool UInt64Value::TryParse(String* stringToParse, UInt64& result) {
-		Boolean goodNumber = true;
 		UInt64 value = 0;
-		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
-			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
-			goodNumber = false;
+		Boolean goodNumber = UInt64Value::TryParseInRange(stringToParse, 0, MaxValue, value);
 		result = (UInt64) value;
 		return (goodNumber);
 	}
@@ -113,8 +102,39 @@ namespace DotnetLibrary
 		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign));
 	}
 	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign) {
+		Boolean overflow = false;
+		return (TryParseInternal(source, sourceLength, result, sign, overflow) && !overflow);
+	}
+	UInt64 UInt64Value::ParseInRange(String* source, UInt64 lowest, UInt64 highest) {
+		if (source == nullptr)
+			throw new ArgumentNullException();
+		UInt64 value = 0;
+		Int32 sign = 0;
+		Boolean overflow = false;
+		if (!TryParseInternal(source->get_Buffer(), source->get_Length(), value, sign, overflow))
+			throw new FormatException();
+		if (overflow || value > (sign < 0 ? lowest : highest))
+			throw new OverflowException();
+		return (sign < 0 ? 0 - value : value);
+	}
+	Boolean UInt64Value::TryParseInRange(String* source, UInt64 lowest, UInt64 highest, UInt64& result) {
+		result = 0;
+		if (source == nullptr)
+			return (false);
+		UInt64 value = 0;
+		Int32 sign = 0;
+		if (!TryParseInternal(source->get_Buffer(), source->get_Length(), value, sign))
+			return (false);
+		if (value > (sign < 0 ? lowest : highest))
+			return (false);
+		result = sign < 0 ? 0 - value : value;
+		return (true);
+	}
+	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign,
+	                                      Boolean& overflow) {
 		result = 0;
 		sign = 1;
+		overflow = false;
 		Boolean gotNumber = false;
 		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsWhiteSpace(*source))
@@ -136,7 +156,10 @@ namespace DotnetLibrary
 		while (sourceLength > 0 && *source != 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = *source - L'0';
+			if (result > (MaxValue - digit) / 10)
+				overflow = true;
+			result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
-- 
2.43.0


From 2837b87d35fe4251fa30036167941a1e3464252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 36/79] fix: CompareTo of 32 and 64 bit integers does not
 overflow

The difference of the values was returned, which wraps or is truncated.
---
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index b9ad3d2..c0c7b0a 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index a036707..b1bfdc5 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index f3e2106..e25b108 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 9ec2b16..9d8f2c7 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From 43837f65891192a8fee0cdadd2cf3fc9e4073465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 37/79] fix: boxed values do not equal null

Comparing with null dereferenced it.
---
 DotNetLibrary/src/ByteValue.cpp   | 3 +++
 DotNetLibrary/src/CharValue.cpp   | 3 +++
 DotNetLibrary/src/Int16Value.cpp  | 3 +++
 DotNetLibrary/src/Int32Value.cpp  | 3 +++
 DotNetLibrary/src/Int64Value.cpp  | 3 +++
 DotNetLibrary/src/SByteValue.cpp  | 3 +++
 DotNetLibrary/src/UInt16Value.cpp | 3 +++
 DotNetLibrary/src/UInt32Value.cpp | 3 +++
 DotNetLibrary/src/UInt64Value.cpp | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 76314be..ed963ad 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,6 +70,9 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..46dfe22 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,6 +68,9 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 70856d3..7e5183e 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,6 +71,9 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index c0c7b0a..dc7ef23 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index b1bfdc5..174983f 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index 56d883b..d3af78f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index ad04d5b..c2fe08c 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index e25b108..13a0629 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 9d8f2c7..4aca733 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,6 +72,9 @@ namespace DotnetLibrary
 		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
+		if (valueToCompare == nullptr) {
+			return false;
+		}
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
-- 
2.43.0


From 10cc3cb793b0cf31c97f659c8b864dc45e669a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 38/79] fix: Double and Single parsing rejects text that is not
 a number

Parse returned an uninitialised value for such text and dereferenced null, and
text behind the number was ignored.
---
 DotNetLibrary/src/DoubleValue.cpp | 14 +++++++++++---
 DotNetLibrary/src/SingleValue.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..6ebd48d 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,12 +137,14 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -164,8 +166,14 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
+		Int32 used = 0;
+		gotNumber = swscanf(source, L"%lG%n", &rtn, &used) == 1;
+		for (Int32 i = used; gotNumber && i < sourceLength; ++i) {
+			if (!CharValue::IsWhiteSpace(source[i]))
+				gotNumber = false;
+		}
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..2b2663b 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,12 +144,14 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
+		result = 0;
 		if (source == nullptr)
 			return (false);
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
@@ -171,8 +173,14 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
+		Int32 used = 0;
+		gotNumber = swscanf(source, L"%G%n", &rtn, &used) == 1;
+		for (Int32 i = used; gotNumber && i < sourceLength; ++i) {
+			if (!CharValue::IsWhiteSpace(source[i]))
+				gotNumber = false;
+		}
+		if (gotNumber)
+			result = rtn;
 		return (gotNumber);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
-- 
2.43.0


From 02373727352b4c3c3ca95875bceb143d6b95e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 39/79] fix: DateTime text shows noon as PM

---
 DotNetLibrary/src/DateTimeValue.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..f525f34 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -271,11 +271,9 @@ namespace DotnetLibrary
 		Int32 hour = this->get_Hour();
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
-		Boolean isPm = false;
-		if (hour > 12) {
+		Boolean isPm = hour >= 12;
+		if (hour > 12)
 			hour -= 12;
-			isPm = true;
-		}
 		Char dateTime[128];
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
-- 
2.43.0


From aab6b9e373867c0b25c1791f34f7e99ddd4cf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 40/79] fix: DateTime.FormatString passes the size of the
 buffer it fills

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index f525f34..e94e67a 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -278,7 +278,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From 9f748fcb757b92a79766a89c9d8b3d7c39883d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 41/79] fix: DateTime rejects 1000 milliseconds

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index e94e67a..3435bf2 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds >= 1000)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
-- 
2.43.0


From 5393e76ec369ebb9f38bf9eca734ceae1737f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 42/79] fix: DateTime constructor rejects a negative hour

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 3435bf2..3eb355c 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 16c6d32bf42b0c8a994ab95cbb8e6f78ec6c588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 43/79] fix: local time zone offset keeps days and minutes

---
 DotNetLibrary/src/DateTimeValue.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 3eb355c..27c0538 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -309,11 +309,10 @@ namespace DotnetLibrary
 #endif
 		time_t rawTime = time(nullptr);
 		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
+		DateTime utc(utcInfo->tm_year + 1900, utcInfo->tm_mon + 1, utcInfo->tm_mday, utcInfo->tm_hour, utcInfo->tm_min, utcInfo->tm_sec);
 		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
-		return ts;
+		DateTime local(localInfo->tm_year + 1900, localInfo->tm_mon + 1, localInfo->tm_mday, localInfo->tm_hour, localInfo->tm_min, localInfo->tm_sec);
+		return DateTimeValue(local).Subtract(utc);
 	}
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
-- 
2.43.0


From c2416031e4bb1204b1cc3dcf818a507afbb6fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 44/79] fix: IsDaylightSavingTime lets mktime decide

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 27c0538..b9d7ee1 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -253,8 +253,9 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From 361cb77968ed168660e1f70d2fa5c9d4911ba6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 45/79] fix: ToLocalTime and ToUniversalTime clamp at the ends
 of the range

---
 DotNetLibrary/src/DateTimeValue.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index b9d7ee1..91211e2 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -318,13 +318,27 @@ namespace DotnetLibrary
 
 	DateTime DateTimeValue::ToLocalTime(Boolean throwOnOverflow) {
 		TimeSpan ts = GetTimeZone();
-		DateTime rtn = Add(ts);
-		return (rtn.value);
+		Int64 ticks = (Int64) value.value + ts.value;
+		if (ticks > MaxTicks) {
+			if (throwOnOverflow)
+				throw new ArgumentException();
+			return DateTime(MaxTicks);
+		}
+		if (ticks < MinTicks) {
+			if (throwOnOverflow)
+				throw new ArgumentException();
+			return DateTime(MinTicks);
+		}
+		return DateTime((UInt64) ticks);
 	}
 	DateTime DateTimeValue::ToUniversalTime() {
 		TimeSpan ts = GetTimeZone();
-		DateTime rtn = Subtract(ts);
-		return (rtn.value);
+		Int64 ticks = (Int64) value.value - ts.value;
+		if (ticks > MaxTicks)
+			return DateTime(MaxTicks);
+		if (ticks < MinTicks)
+			return DateTime(MinTicks);
+		return DateTime((UInt64) ticks);
 	}
 	DateTime DateTimeValue::get_Now() {
 #ifdef	WIN32
-- 
2.43.0


From d9af496776ef937855246b17b50ff4339e5211ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 46/79] fix: DateTime.Add rejects NaN

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 91211e2..2aa7238 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,7 +106,7 @@ namespace DotnetLibrary
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
-		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
+		if (!(millis_double > (Double) -MaxMillis && millis_double < (Double) MaxMillis))
 			throw new ArgumentOutOfRangeException();
 		return AddTicks((Int64) millis_double * TicksPerMillisecond);
 	}
-- 
2.43.0


From 31ec6d67ba6cdb3659b9d9140d1f3cbc9b3bbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 47/79] fix: TimeSpan.MaxValue and MinValue are the Int64
 limits

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..47094ac 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan((Int64) 0x7FFFFFFFFFFFFFFF);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan((Int64) 0x8000000000000000);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From edd5f39408de31f7f345abf27215a1d8c808105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 48/79] fix: TimeSpan.Subtract detects overflow

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 47094ac..8243f81 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -241,8 +241,8 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From a815df5aa2cf0df5a8be87ec68d806e1f8c24fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 49/79] fix: TimeSpan text pads the fraction on the left

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 8243f81..eef2660 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -185,8 +185,8 @@ namespace DotnetLibrary
 			Char frac[32];
 			Int32Value factValue(fractional);
 			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
 			stringBuilder.Append(L'0', 7 - fracLength);
+			stringBuilder.Append(frac, fracLength);
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From 0a71f7cc1fae9ff9b810e8ecb997fd471eacb38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 50/79] fix: TimeSpan from Double rejects 2^63 ticks and NaN

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index eef2660..0b399b3 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -129,7 +129,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
+		if (ticks >= 9223372036854775808.0 || ticks < -9223372036854775808.0 || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
@@ -212,7 +212,7 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
+		if ((ticks >= 9223372036854775808.0) || (ticks < -9223372036854775808.0))
 			throw new OverflowException();
 		return (Int64) ticks;
 	}
@@ -221,7 +221,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
+		if (ticks >= 9223372036854775808.0 || ticks < -9223372036854775808.0 || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
-- 
2.43.0


From 46bccac63c53296e8a1f8c60401f2820c641f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 51/79] fix: TimeSpan parsing rejects malformed text and keeps
 all day digits

---
 DotNetLibrary/src/TimeSpanValue.cpp | 102 ++++++++++++++++------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 0b399b3..0a11a4a 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -246,59 +246,77 @@ namespace DotnetLibrary
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
+	// Accepts [ws][-]{ d | [d.]hh:mm[:ss[.fffffff]] | d:hh:mm:ss[.fffffff] }[ws]
 	Boolean TimeSpanValue::TryParse(String* s, TimeSpan& result) {
+		const Int64 maxDays = 10675199;
 		Int64 numbers[] = { 0, 0, 0, 0 };
 		Int32 amount = 0;
+		Boolean dayDot = false;
 		Int64 fractional = 0;
+		result = 0;
+		if (s == nullptr)
+			return false;
 		Char* chars = s->get_Buffer();
-		Int32 length = s->get_Length();
-		Int32 sign;
-		Boolean negate = false;
-		if (*chars == L'-') {
-			negate = true;
+		Char* end = chars + s->get_Length();
+		while (chars < end && CharValue::IsWhiteSpace(*chars))
 			++chars;
-			--length;
-		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
-				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
+		while (chars < end && CharValue::IsWhiteSpace(end[-1]))
+			--end;
+		Boolean negate = chars < end && *chars == L'-';
+		if (negate)
+			++chars;
+		while (true) {
+			if (amount == 4 || chars == end || !CharValue::IsDigit(*chars))
+				return false;
+			Int64 number = 0;
+			for (; chars < end && CharValue::IsDigit(*chars); ++chars) {
+				number = number * 10 + (*chars - L'0');
+				if (number > maxDays)
+					return false;
+			}
+			numbers[amount++] = number;
+			if (chars == end)
 				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
-		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
+			if (*chars == L'.') {
+				if (amount > 1)
+					break;
+				dayDot = true;
+			}
+			else if (*chars != L':')
+				return false;
 			++chars;
-			--length;
 		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
+		if (dayDot && amount < 3)
+			return false;
+		if (chars != end) {
+			// Only seconds can have a fraction
+			if (amount < (dayDot ? 4 : 3) || end - chars < 2 || end - chars > 8)
+				return false;
+			Int64 frac = TicksPerSecond;
+			for (++chars; chars < end; ++chars) {
+				if (!CharValue::IsDigit(*chars))
+					return false;
+				frac /= 10;
+				fractional += (Int64) (*chars - L'0') * frac;
+			}
+		}
+		Int32 index = 0;
 		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
+		if (dayDot || amount == 4 || amount == 1)
+			days = numbers[index++];
+		Int64 hours = index < amount ? numbers[index++] : 0;
+		Int64 minutes = index < amount ? numbers[index++] : 0;
+		Int64 seconds = index < amount ? numbers[index++] : 0;
+		if (hours > 23 || minutes > 59 || seconds > 59)
+			return false;
+		UInt64 ticks = (UInt64) (days * TicksPerDay);
+		ticks += (UInt64) (hours * TicksPerHour + minutes * TicksPerMinute + seconds * TicksPerSecond + fractional);
+		UInt64 limit = (UInt64) MaxValue.value;
 		if (negate)
-			ticks = -ticks;
-		result = ticks;
+			++limit;
+		if (ticks > limit)
+			return false;
+		result = (Int64) (negate ? 0 - ticks : ticks);
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From dceedb7421bb2dd7272d1b2d03ead89b58c8846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 52/79] fix: 64-bit DivRem keeps the whole quotient

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..56ec235 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -276,7 +276,7 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
-		Int32 div = a / b;
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 5abed718324acf6634f259aea83d30e298e3d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 53/79] fix: integer division overflow throws OverflowException

---
 DotNetLibrary/src/DotNetMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 56ec235..b97038a 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -256,6 +256,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v2 == -1 && v1 == Int64Value::MinValue)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -269,6 +271,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int32Value::MinValue)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -276,6 +280,8 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == Int64Value::MinValue)
+			throw new OverflowException();
 		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
-- 
2.43.0


From dd3fbcc291ae4e3958765d06ec1f8afa88f4943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 54/79] fix: Double division by zero follows the signs of its
 operands

---
 DotNetLibrary/src/DotNetMath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index b97038a..36852cd 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -262,8 +262,10 @@ namespace DotnetLibrary
 	}
 	Double Math::Divide(Double v1, Double v2) {
 		if (v2 == 0) {
-			if (v1 == 0)
+			if (v1 == 0 || DoubleValue::IsNaN(v1))
 				return (DoubleValue::NaN);
+			if (DoubleValue::IsNegative(v1) != DoubleValue::IsNegative(v2))
+				return (DoubleValue::NegativeInfinity);
 			return (DoubleValue::PositiveInfinity);
 		}
 		return v1 / v2;
-- 
2.43.0


From be51bf4a9e48641f97466f125eb928cec6cd14d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 55/79] fix: Abs of the smallest Int32 and Int64 is not
 negative

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 36852cd..8b37d1b 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 		return abs(v1);
 	}
 	Double Math::Abs(Int32 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(Int64 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(SByte v1) {
 		return abs(v1);
-- 
2.43.0


From 4f9ca18bdcbf33b931901acd291a13b38457e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 56/79] fix: Double.MaxValue and MinValue are the largest
 finite values

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 6ebd48d..9ba0334 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From 5d85e4bc345ddb0b97d6f3b8e8b1fd2dc1e3fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 57/79] fix: ILogB of zero, infinity and NaN

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 8b37d1b..7923005 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -307,6 +307,10 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
+		if (x == 0)
+			return Int32Value::MinValue;
+		if (!DoubleValue::IsFinite(x))
+			return Int32Value::MaxValue;
 		return logb(x);
 	}
 	Double Math::Log(Double v1) {
-- 
2.43.0


From 14458381c9394e0dce87a7524611bf1b6a6b7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 58/79] fix: FusedMultiplyAdd rounds once

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 7923005..987de8e 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -301,7 +301,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From 0137ab2eb2ca95839d2fb910b38697ee1581ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 59/79] fix: GetBaseException returns the root of the chain

---
 DotNetLibrary/include/Exception.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..5f144f6 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -73,7 +73,10 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr)
+				base = base->innerException;
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From acedaa979a037d3408b3f141fcf5ee2bc6b8b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 60/79] fix: sending a missing message prints an empty line

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..1d0310c 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -26,7 +26,7 @@
  */
 void DotnetLibrarySupport::TranslatorSupport::Send(String* message)
 {
-	printf("%ls\n", message->get_Buffer());
+	printf("%ls\n", message == nullptr ? L"" : message->get_Buffer());
 }
 
 /*!
-- 
2.43.0


From d2a50dbb2b78c80d30c5a234acb37cef43d7cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 61/79] fix: Array bounds queries reject dimensions the array
 does not have

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index abcf819..9f594ba 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -147,7 +147,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -158,12 +158,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From 810eb1006d3de1e25f33a253cd11edc985b6e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 62/79] fix: Array constructor rejects negative and
 unrepresentable sizes

---
 DotNetLibrary/src/Array.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 9f594ba..c97885f 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -56,15 +56,26 @@ namespace DotnetLibrary
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new OverflowException();
+		// Every byte offset into the data has to be representable as Int32
+		Int64 maxCount = 0x7FFFFFFF;
+		if (DataTypeSize[dataType] > 1)
+			maxCount /= DataTypeSize[dataType];
+		Int64 elementCount = dimension1Size;
 		if (dimension2Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
+			elementCount *= dimension2Size;
 		}
+		if (elementCount > maxCount)
+			throw new OverflowException();
 		if (dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
+			elementCount *= dimension3Size;
 		}
+		if (elementCount > maxCount)
+			throw new OverflowException();
+		totalElementCount = (Int32) elementCount;
 	}
 	Array::~Array() {
 		if (ownsData && data != nullptr)
-- 
2.43.0


From 76244b504b8f8a837f74c40386ca5643defe335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 63/79] fix: SetValue keeps other objects out of string arrays

---
 DotNetLibrary/src/Array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index c97885f..a274d24 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -286,6 +286,8 @@ namespace DotnetLibrary
 				*((Object**) addr) = value;
 				break;
 			case StringType:
+				if (value->GetRawDataType() != StringType)
+					throw new InvalidCastException();
 				*((Object**) addr) = value;
 				break;
 			case BooleanType:
-- 
2.43.0


From bb2f5f4f38c9536de61ac508331fbb672151a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 64/79] fix: BitConverter.ToString rejects ranges outside an
 empty array

---
 DotNetLibrary/src/BitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 63e87bd..185465a 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -140,7 +140,7 @@ namespace DotnetLibrary
 			length = value->get_Length() - startIndex;
 		if (startIndex < 0 || startIndex >= value->get_Length()) {
 			// special (but valid) case (e.g. new byte [0])
-			if ((startIndex == 0) && (value->get_Length() == 0))
+			if ((startIndex == 0) && (value->get_Length() == 0) && (length == 0))
 				return String::Empty;
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From 5a56a3a7477dd62b66e56b2c1889a081a2c3076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 65/79] fix: StringBuilder.AppendLine appends the whole line or
 nothing

---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 45bc072..4478597 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -317,10 +317,12 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
+		EnsureRoomFor(2);
 		Append(L'\r');
 		return (Append(L'\n'));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		EnsureRoomFor((value == nullptr ? 0 : value->get_Length()) + 2);
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From f6c17a38df003c341d22571486240ebb24d90ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 66/79] fix: StringBuilder.Append rejects a negative number of
 characters

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4478597..ad8a2be 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -194,6 +194,9 @@ namespace DotnetLibrary
 		return currentLength;
 	}
 	StringBuilder* StringBuilder::Append(const Char* values, Int32 charCount, Int32 where) {
+		if (charCount < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (where == -1) {
 			where = currentLength;
 		}
-- 
2.43.0


From a5d7b97b24e295b5a26a072b423a469ca9dd6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 67/79] fix: StringBuilder.CountSubStrings rejects a range
 outside the content

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index ad8a2be..4af8a9d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -157,6 +157,12 @@ namespace DotnetLibrary
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
 		Int32 amount = 0;
+		if (subString == nullptr) {
+			throw new ArgumentNullException();
+		}
+		if (startIndex < 0 || length < 0 || startIndex > currentLength || length > currentLength - startIndex) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (subString->get_Length() == 0)
 			return (amount);
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
-- 
2.43.0


From 7d9c6dce0a1a6c39e093c99f177a56d1c793698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 68/79] fix: String.Join rejects a start index past the end of
 the values

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 79bedca..5483f42 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -402,7 +402,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -429,7 +429,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 73c1c557cad9ab4c696e8210bbe3e7440e1e7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 69/79] fix: String made from a character array rejects every
 range outside the array

---
 DotNetLibrary/src/StringDotNet.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 5483f42..aaf3837 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -55,17 +55,14 @@ namespace DotnetLibrary
 		if (length < 0) {
 			length = values == nullptr ? 0 : values->get_Length();
 		}
+		if (startIndex < 0 || length > (values == nullptr ? 0 : values->get_Length()) - startIndex) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (values == nullptr || length == 0) {
 			this->length = 0;
 			characterData = new Char[1];
 			return;
 		}
-		if (startIndex < 0) {
-			startIndex = 0;
-		}
-		if (length > values->get_Length() - startIndex) {
-			throw new ArgumentOutOfRangeException();
-		}
 		if (values->GetElementType() != CharType) {
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From 3387a3e28e358dfeb6b524f93be0764762771590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 70/79] fix: add time spans without signed overflow

---
 DotNetLibrary/src/TimeSpanValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 0a11a4a..c19f3a7 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	TimeSpan TimeSpanValue::Add(const TimeSpan& ts) {
-		Int64 result = value.value + ts.value;
+		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
 		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
-- 
2.43.0


From aa455d1f65509ce28b2585c9f5d7ac07bcbc8b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 71/79] fix: check block copy ranges without signed overflow

---
 DotNetLibrary/src/Buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index f0b3081..f346ba4 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -38,7 +38,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		if ((sourceLength < (UInt32) srcOffset + (UInt32) count) || (destinationLength < (UInt32) dstOffset + (UInt32) count))
 			throw new ArgumentException();
 		if (count == 0)
 			return;
-- 
2.43.0


From 1ce04c3d94f591dae6586e6a8a8ea1f968710793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 72/79] fix: refuse string builder growth past 32 bits without
 signed overflow

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4af8a9d..6463756 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -340,6 +340,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount > 0x7fffffff - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From f9639bcd35a5fe5b6520f9a7f45d3d59b87b04ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 73/79] fix: text with an unfinished exponent is not a number

---
 DotNetLibrary/src/DoubleValue.cpp | 7 ++++---
 DotNetLibrary/src/SingleValue.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 9ba0334..f66443d 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -165,9 +165,10 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
-		Int32 used = 0;
-		gotNumber = swscanf(source, L"%lG%n", &rtn, &used) == 1;
+		Char* end;
+		Double rtn = wcstod(source, &end);
+		Int32 used = (Int32) (end - source);
+		gotNumber = used > 0;
 		for (Int32 i = used; gotNumber && i < sourceLength; ++i) {
 			if (!CharValue::IsWhiteSpace(source[i]))
 				gotNumber = false;
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 2b2663b..561a06f 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -172,9 +172,10 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
-		Int32 used = 0;
-		gotNumber = swscanf(source, L"%G%n", &rtn, &used) == 1;
+		Char* end;
+		Single rtn = wcstof(source, &end);
+		Int32 used = (Int32) (end - source);
+		gotNumber = used > 0;
 		for (Int32 i = used; gotNumber && i < sourceLength; ++i) {
 			if (!CharValue::IsWhiteSpace(source[i]))
 				gotNumber = false;
-- 
2.43.0


From 81ec4edcfec0acde8dd3bfcc278c88ec20a1ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 74/79] fix: text of true, false or an object that does not fit
 the buffer is refused

Formatting into a buffer too small for the text reported more characters than
it had placed, and with a buffer of no characters wrote far outside it. Refuse
such a buffer with an exception, as strings and string builders do.
---
 DotNetLibrary/src/BooleanValue.cpp | 11 +----------
 DotNetLibrary/src/Object.cpp       |  2 ++
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/BooleanValue.cpp b/DotNetLibrary/src/BooleanValue.cpp
index 00aba1b..898137f 100644
--- a/DotNetLibrary/src/BooleanValue.cpp
+++ b/DotNetLibrary/src/BooleanValue.cpp
@@ -91,16 +91,7 @@ namespace DotnetLibrary
 	}
 
 	Int32 BooleanValue::FormatString(Char* where, const Int32 whereSize) {
-		Int32 rtn;
-		if (value) {
-			CopyChars(where, whereSize, TrueString->get_Buffer(), TrueString->get_Length());
-			rtn = TrueString->get_Length();
-		}
-		else {
-			CopyChars(where, whereSize, FalseString->get_Buffer(), FalseString->get_Length());
-			rtn = FalseString->get_Length();
-		}
-		return rtn;
+		return (value ? TrueString : FalseString)->FormatString(where, whereSize);
 	}
 	Boolean BooleanValue::Parse(String* stringToParse) {
 		if (stringToParse == nullptr)
diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 704accb..cf543f7 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -42,6 +42,8 @@ namespace DotnetLibrary
 		return (new String(chars, 0, length));
 	}
 	Int32 Object::FormatString(Char* where, const Int32 whereSize) {
+		if (whereSize <= 6)
+			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, (Char*) L"Object", 6);
 		return ((Int32) wcslen((Char*) L"Object"));
 	}
-- 
2.43.0


From 33e4c92ecc33e4530a9b3cf17a6c33e9aa32d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:39 +0000
Subject: [PATCH 75/79] fix: the text of a character placed in a buffer is
 terminated

As with every other type; the buffer is already required to have the room.
---
 DotNetLibrary/src/CharValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 46dfe22..403238b 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -82,7 +82,8 @@ namespace DotnetLibrary
 	Int32 CharValue::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize < 2)
 			throw new IndexOutOfRangeException();
-		*where = value;
+		where[0] = value;
+		where[1] = 0;
 		return 1;
 	}
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
-- 
2.43.0


From bac84ae3e6955050a9cc6ec51a4895685f07a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:54 +0000
Subject: [PATCH 76/79] fix: exceptions are caught by handlers for the classes
 they derive from

ArgumentNullException and ArgumentOutOfRangeException are ArgumentExceptions
and OverflowException and DivideByZeroException are ArithmeticExceptions in
.NET: translated code that catches the base class has to get them.
---
 DotNetLibrary/include/Exception.h | 50 +++++++++++++++++--------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 5f144f6..fe779e7 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -96,39 +96,41 @@ namespace DotnetLibrary
 		}
 	};
 	/*!
-	 * Null argument exception
+	 * Bad Argument
 	 */
-	struct DLL_EXPORT ArgumentNullException: public Exception
+	struct DLL_EXPORT ArgumentException: public Exception
 	{
 	public:
-		ArgumentNullException() : Exception(new String(L"Arguement is null")) {
+		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		}
+		ArgumentException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * rank exception
+	 * Null argument exception
 	 */
-	struct DLL_EXPORT RankException: public Exception
+	struct DLL_EXPORT ArgumentNullException: public ArgumentException
 	{
 	public:
-		RankException() : Exception(new String(L"Rank exception")) {
+		ArgumentNullException() : ArgumentException(new String(L"Arguement is null")) {
 		}
 	};
 	/*!
-	 * Argument out of range
+	 * rank exception
 	 */
-	struct DLL_EXPORT ArgumentOutOfRangeException: public Exception
+	struct DLL_EXPORT RankException: public Exception
 	{
 	public:
-		ArgumentOutOfRangeException() : Exception(new String(L"Arguement out of range")) {
+		RankException() : Exception(new String(L"Rank exception")) {
 		}
 	};
 	/*!
-	 * Bad Argument
+	 * Argument out of range
 	 */
-	struct DLL_EXPORT ArgumentException: public Exception
+	struct DLL_EXPORT ArgumentOutOfRangeException: public ArgumentException
 	{
 	public:
-		ArgumentException() : Exception(new String(L"Bad Arguement")) {
+		ArgumentOutOfRangeException() : ArgumentException(new String(L"Arguement out of range")) {
 		}
 	};
 	/*!
@@ -168,39 +170,41 @@ namespace DotnetLibrary
 		}
 	};
 	/*!
-	 * Overflow
+	 * Arithmetic exception
 	 */
-	struct DLL_EXPORT OverflowException: public Exception
+	struct DLL_EXPORT ArithmeticException: public Exception
 	{
 	public:
-		OverflowException() : Exception(new String(L"Overflow")) {
+		ArithmeticException() : Exception(new String(L"Overflow")) {
+		}
+		ArithmeticException(String* msg) : Exception(msg) {
 		}
 	};
 	/*!
-	 * Max min exception
+	 * Overflow
 	 */
-	struct DLL_EXPORT ThrowMinMaxException: public Exception
+	struct DLL_EXPORT OverflowException: public ArithmeticException
 	{
 	public:
-		ThrowMinMaxException() : Exception(new String(L"Overflow")) {
+		OverflowException() : ArithmeticException(new String(L"Overflow")) {
 		}
 	};
 	/*!
-	 * Arithmetic exception
+	 * Max min exception
 	 */
-	struct DLL_EXPORT ArithmeticException: public Exception
+	struct DLL_EXPORT ThrowMinMaxException: public Exception
 	{
 	public:
-		ArithmeticException() : Exception(new String(L"Overflow")) {
+		ThrowMinMaxException() : Exception(new String(L"Overflow")) {
 		}
 	};
 	/*!
 	 * Divide by Zero
 	 */
-	struct DLL_EXPORT DivideByZeroException: public Exception
+	struct DLL_EXPORT DivideByZeroException: public ArithmeticException
 	{
 	public:
-		DivideByZeroException() : Exception(new String(L"Divide by Zero")) {
+		DivideByZeroException() : ArithmeticException(new String(L"Divide by Zero")) {
 		}
 	};
 }
-- 
2.43.0


From ee8746d8637ebf993206e5938445ceef39b2b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:44 +0000
Subject: [PATCH 77/79] fix: clamping between limits in the wrong order is a
 bad argument

.NET's Math.Clamp throws an ArgumentException when min exceeds max; handlers
for that class did not get the library's ThrowMinMaxException.
---
 DotNetLibrary/include/Exception.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index fe779e7..e939f6e 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -192,10 +192,10 @@ namespace DotnetLibrary
 	/*!
 	 * Max min exception
 	 */
-	struct DLL_EXPORT ThrowMinMaxException: public Exception
+	struct DLL_EXPORT ThrowMinMaxException: public ArgumentException
 	{
 	public:
-		ThrowMinMaxException() : Exception(new String(L"Overflow")) {
+		ThrowMinMaxException() : ArgumentException(new String(L"Overflow")) {
 		}
 	};
 	/*!
-- 
2.43.0


From e941108892f6e59b92049c51f72862607fafdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:18 +0000
Subject: [PATCH 78/79] fix: ranges outside a builder, string or copied array
 are bad arguments

StringBuilder.ToString and Insert, the character classifications of a string
with a negative index and Array.CopyTo reported them with
IndexOutOfRangeException, which handlers for ArgumentException do not get;
.NET and their sister operations report an argument out of range.
---
 DotNetLibrary/src/Array.cpp         |  1 -
 DotNetLibrary/src/CharValue.cpp     | 20 ++++++++++----------
 DotNetLibrary/src/StringBuilder.cpp |  8 ++++----
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index a274d24..8e772e8 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -122,7 +122,6 @@ namespace DotnetLibrary
 		if (array == nullptr)
 			throw new ArgumentNullException;
 		array->EnsureSingleDimension();
-		VerifyIndexWithinRangeOfArray(array, index, get_Length());
 		Copy(this, 0, array, index, dimension1Size);
 	}
 	Int32 Array::ComputeIndex(Int32 index1, Int32 index2, Int32 index3) {
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 403238b..123576e 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (GetNumericValue(v->get_Chars(index)));
 	}
@@ -104,7 +104,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsControl(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsControl(v->get_Chars(index)));
 	}
@@ -114,7 +114,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsDigit(v->get_Chars(index)));
 	}
@@ -124,7 +124,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetter(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetter(v->get_Chars(index)));
 	}
@@ -134,7 +134,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLetterOrDigit(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLetterOrDigit(v->get_Chars(index)));
 	}
@@ -144,7 +144,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsLower(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsLower(v->get_Chars(index)));
 	}
@@ -160,7 +160,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsPunctuation(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsPunctuation(v->get_Chars(index)));
 	}
@@ -170,7 +170,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsSeparator(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsSeparator(v->get_Chars(index)));
 	}
@@ -180,7 +180,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsUpper(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsUpper(v->get_Chars(index)));
 	}
@@ -190,7 +190,7 @@ namespace DotnetLibrary
 	Boolean CharValue::IsWhiteSpace(String* v, Int32 index) {
 		if (v == nullptr)
 			throw new ArgumentNullException();
-		if (index >= v->get_Length())
+		if (index < 0 || index >= v->get_Length())
 			throw new ArgumentOutOfRangeException();
 		return (IsWhiteSpace(v->get_Chars(index)));
 	}
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 6463756..3cb86f2 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -188,9 +188,9 @@ namespace DotnetLibrary
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
 		if (startIndex < 0 || startIndex > currentLength)
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		if (length < 0 || length > currentLength - startIndex)
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
@@ -207,7 +207,7 @@ namespace DotnetLibrary
 			where = currentLength;
 		}
 		if (where < 0 || where > currentLength) {
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
@@ -379,7 +379,7 @@ namespace DotnetLibrary
 	}
 	void StringBuilder::VerifyInsertIndex(Int32 index) {
 		if (index < 0 || index > currentLength) {
-			throw new IndexOutOfRangeException();
+			throw new ArgumentOutOfRangeException();
 		}
 	}
 	StringBuilder* StringBuilder::InsertValue(Int32 index, ValueType& value) {
-- 
2.43.0


From 3c448e30c23b6d0f13faa0c2adcc5bbe047c0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:18 +0000
Subject: [PATCH 79/79] fix: a replacement too long for any builder is refused,
 however its length overflows

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 3cb86f2..985af97 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -518,6 +518,9 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if (howMany > (maxCapacity - currentLength) / delta) {
+				throw new ArgumentOutOfRangeException();
+			}
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0

