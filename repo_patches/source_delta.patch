From e232c5650c31c3542f7fcb717ad042ac493d6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 001/113] fix: compute C++ element offsets of OMTensor in 64
 bits

---
 src/Runtime/OMTensor.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..fac8532 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -761,7 +761,8 @@ static inline std::vector<int64_t> computeStridesFromShape(
 static inline int64_t computeElemOffset(
     const int64_t *dataStrides, int rank, const std::vector<int64_t> &indexes) {
   std::vector<int64_t> dimStrides(dataStrides, dataStrides + rank);
-  return inner_product(indexes.begin(), indexes.end(), dimStrides.begin(), 0);
+  return inner_product(indexes.begin(), indexes.end(), dimStrides.begin(),
+      (int64_t)0);
 }
 
 /* Helper function to print a vector with delimiter */
-- 
2.43.0


From 38c6a31cdc5f3f1f8eb11d9a910453316e3402df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:45 +0000
Subject: [PATCH 002/113] fix: strides of a rank-0 OMTensor are empty instead
 of an exception

---
 src/Runtime/OMTensor.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index fac8532..1a40332 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,8 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From 158d9424ff0799097fce8ded5b80c766886d35d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:30 +0000
Subject: [PATCH 003/113] fix: honour fractional tolerances when comparing
 integral OMTensors

---
 src/Runtime/OMTensor.inc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 1a40332..4b645fc 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -884,20 +884,26 @@ inline bool omTensorAreTwoOmtsClose(
 
   // Compute difference, verify it's within tolerable range.
   // rtol * abs(b) + atol >= abs(a - b)
+  // Integral tensors are compared in double: with T itself, fractional
+  // tolerances would be truncated to 0.
+  using F =
+      typename std::conditional<std::is_floating_point<T>::value, T,
+          double>::type;
   auto nElems = omTensorGetNumElems(a);
-  std::vector<T> absoluteDiff(nElems);
-  std::vector<T> absb(nElems);
-  std::vector<T> eqAllclose(nElems);
-  std::vector<T> rtolT(nElems, rtol);
-  std::vector<T> atolT(nElems, atol);
+  std::vector<F> absoluteDiff(nElems);
+  std::vector<F> absb(nElems);
+  std::vector<F> eqAllclose(nElems);
+  std::vector<F> rtolT(nElems, rtol);
+  std::vector<F> atolT(nElems, atol);
   // abs(a - b)
   std::transform((T *)a->_alignedPtr, (T *)a->_alignedPtr + nElems,
-      (T *)b->_alignedPtr, absoluteDiff.begin(), std::minus<>());
+      (T *)b->_alignedPtr, absoluteDiff.begin(),
+      [](T x, T y) { return (F)x - (F)y; });
   std::transform(absoluteDiff.begin(), absoluteDiff.end(), absoluteDiff.begin(),
-      static_cast<T (*)(T)>(&std::abs));
+      static_cast<F (*)(F)>(&std::abs));
   // rtol * abs(b)
   std::transform((T *)b->_alignedPtr, (T *)b->_alignedPtr + nElems,
-      absb.begin(), static_cast<T (*)(T)>(&std::abs));
+      absb.begin(), [](T x) { return std::abs((F)x); });
   std::transform(rtolT.begin(), rtolT.end(), absb.begin(), eqAllclose.begin(),
       std::multiplies<>());
   // (rtol * abs(b)) + atol
@@ -907,7 +913,7 @@ inline bool omTensorAreTwoOmtsClose(
   std::transform(eqAllclose.begin(), eqAllclose.end(), absoluteDiff.begin(),
       eqAllclose.begin(), std::minus<>());
   bool satisfied = std::all_of(
-      eqAllclose.begin(), eqAllclose.end(), [&](T eq) { return eq >= 0; });
+      eqAllclose.begin(), eqAllclose.end(), [&](F eq) { return eq >= 0; });
 
   if (!satisfied) {
     // Figure out where and what went wrong, this can be slow; but hopefully
-- 
2.43.0


From f232b4bbc45e00810d8d4cc0838b028dc0a6b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:42 +0000
Subject: [PATCH 004/113] fix: TopK keeps the lower index among equal elements

---
 src/Runtime/OMTopK.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..fbe4f71 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -53,18 +53,18 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if root is "better" than left child
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
     comparison = compare(data, &heap[swap_idx], &heap[child]);
 #else
     comparison = compare(&heap[swap_idx], &heap[child], data);
 #endif
-    if (comparison > 0) {
+    if (comparison < 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
@@ -72,7 +72,7 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
 #else
       comparison = compare(&heap[swap_idx], &heap[child + 1], data);
 #endif
-      if (comparison > 0) {
+      if (comparison < 0) {
         swap_idx = child + 1;
       }
     }
@@ -148,9 +148,10 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
   // 1. Get the heap comparator.
   // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
   // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
+  // The heap keeps the last element in the comparator's order at its root. It
+  // must not use the comparator of the opposite direction, which would take the
+  // lower index as the "worst" of equal values.
+  compareFunctionType *heapCompare = getCompareFunction(ascending, dataType);
   if (!heapCompare)
     return; // Unsupported data type
 
-- 
2.43.0


From 8a5b8771cd55cb8a540153be19b5dee79832487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 005/113] fix: Unique treats -0.0 and 0.0 as the same value

---
 src/Runtime/OMUnique.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..a81605c 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -119,6 +119,35 @@ static int isLessNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
   return 0;
 }
 
+// Check if two elements are the same value. Elements that have the same bits
+// are (this covers NaN), and so are the two floating-point zeros.
+static int isSameNum(void *arg1, void *arg2, OM_DATA_TYPE dataType) {
+  switch (dataType) {
+  case ONNX_TYPE_FLOAT:
+    if (*((float *)arg1) == *((float *)arg2))
+      return 1;
+    break;
+  case ONNX_TYPE_DOUBLE:
+    if (*((double *)arg1) == *((double *)arg2))
+      return 1;
+    break;
+  default:
+    break;
+  }
+  return memcmp(arg1, arg2, getDataTypeSize(dataType)) == 0;
+}
+
+// Check if two slices hold the same values
+static int isSameSlice(
+    void *slice1, void *slice2, uint64_t elemNum, OM_DATA_TYPE dataType) {
+  uint64_t dataSize = getDataTypeSize(dataType);
+  for (uint64_t i = 0; i < elemNum; i++)
+    if (!isSameNum(((char *)slice1) + dataSize * i,
+            ((char *)slice2) + dataSize * i, dataType))
+      return 0;
+  return 1;
+}
+
 // Check if
 static int isLessSlice(
     void *elem1, void *elem2, uint64_t elemSize, OM_DATA_TYPE dataType) {
@@ -128,7 +157,7 @@ static int isLessSlice(
   for (int i = 0; i < elemNum; i++) {
     void *num1 = ((char *)elem1) + (dataSize * i);
     void *num2 = ((char *)elem2) + (dataSize * i);
-    if (memcmp(num1, num2, dataSize)) // if num1 != num2
+    if (!isSameNum(num1, num2, dataType))
       return isLessNum(num1, num2, dataType);
   }
   return 0;
@@ -217,7 +246,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
   int found = 0;
   for (insertIdx = 0; insertIdx < table->numberOfSlices; insertIdx++) {
     void *sliceInTable = (void *)(sliceDataPtr + sliceSizeInBytes * insertIdx);
-    if (!memcmp(sliceInTable, slice, sliceSizeInBytes)) {
+    if (isSameSlice(sliceInTable, slice, table->numberOfElementsInSlice,
+            table->dataType)) {
       found = 1;
       if (table->countsPtr != NULL)
         ((table->countsPtr)[insertIdx])++;
-- 
2.43.0


From d20f748a24f464f5567b3273901c717ab4b0e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 006/113] fix: Unique compares slices in row-major element
 order

---
 src/Runtime/OMUnique.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a81605c..95f1a6f 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -193,16 +193,16 @@ static void getSliceData(const OMTensor *inputTensor, int64_t sliceAxis,
     shapeInUniqueAxis[i] = (i == sliceAxis) ? 1 : inputShape[i];
     strides[i] = inputStrides[i];
   }
-  // Gather all data in the slice
+  // Gather all data in the slice, in row-major order
   uint64_t dim[6];
   int64_t outputIdx = 0;
 
-  for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
-    for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
-      for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
-        for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
-          for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
-            for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+  for (dim[0] = 0; dim[0] < shapeInUniqueAxis[0]; dim[0]++) {
+    for (dim[1] = 0; dim[1] < shapeInUniqueAxis[1]; dim[1]++) {
+      for (dim[2] = 0; dim[2] < shapeInUniqueAxis[2]; dim[2]++) {
+        for (dim[3] = 0; dim[3] < shapeInUniqueAxis[3]; dim[3]++) {
+          for (dim[4] = 0; dim[4] < shapeInUniqueAxis[4]; dim[4]++) {
+            for (dim[5] = 0; dim[5] < shapeInUniqueAxis[5]; dim[5]++) {
               uint64_t tdim[6] = {
                   dim[0], dim[1], dim[2], dim[3], dim[4], dim[5]};
               tdim[sliceAxis] = idxInSliceAxis;
-- 
2.43.0


From dd1eacef0ebcd9d9194a241cf0ab4d75a822e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 007/113] fix: Unique with outputs that are not requested

---
 src/Runtime/OMUnique.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index 95f1a6f..ac46d10 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -295,8 +295,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -304,11 +304,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -387,6 +382,16 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   int64_t *totalPtr = (int64_t *)omTensorGetDataPtr(totalTensor);
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
+  // The compiler passes a tensor without elements for an output that is not
+  // needed.
+  if (Y != NULL && omTensorGetNumElems(Y) == 0)
+    Y = NULL;
+  if (indices != NULL && omTensorGetNumElems(indices) == 0)
+    indices = NULL;
+  if (inverse_indices != NULL && omTensorGetNumElems(inverse_indices) == 0)
+    inverse_indices = NULL;
+  if (counts != NULL && omTensorGetNumElems(counts) == 0)
+    counts = NULL;
   void *YPtr = (Y != NULL) ? omTensorGetDataPtr(Y) : NULL;
   void *indicesPtr = (indices != NULL) ? omTensorGetDataPtr(indices) : NULL;
   void *inverseIndicesPtr =
@@ -436,7 +441,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 4dc4bb1667788f924a8495f8d97e293fc8b428e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 008/113] fix: Unique keeps its temporary buffers on the heap

---
 src/Runtime/OMUnique.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index ac46d10..4b762d2 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -401,13 +401,19 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
   assert(dataSize > 0); // Test for unsupported types.
 
   int count = 0;
+  // Temporary buffers, proportional to the input: too large for the stack.
+  void *tempSliceTable = NULL, *tempIndices = NULL, *tempSlice = NULL;
   sliceTable sliceTable;
   if (sliceAxis < 0) { // if slice attribute is not specified
     // manage the inputTensor as flatten one
     uint64_t elementNum = 1;
     for (int64_t i = 0; i < inputRank; i++)
       elementNum *= inputShape[i];
-    void *sliceDataPtr = (YPtr == NULL) ? alloca(dataSize * elementNum) : YPtr;
+    if (YPtr == NULL) {
+      tempSliceTable = malloc(dataSize * elementNum);
+      assert(tempSliceTable || elementNum == 0); // Error: "out of memory".
+    }
+    void *sliceDataPtr = (YPtr == NULL) ? tempSliceTable : YPtr;
     sliceTableInit(&sliceTable, dataType, sorted, 1, elementNum, sliceDataPtr,
         (uint64_t *)indicesPtr, (uint64_t *)inverseIndicesPtr,
         (uint64_t *)countsPtr);
@@ -422,17 +428,24 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
     int64_t numOfElementsInSlice = 1;
     for (int64_t i = 0; i < inputRank; i++)
       numOfElementsInSlice *= (i == sliceAxis) ? 1 : inputShape[i];
-    void *sliceDataPtr =
-        (YPtr == NULL) ? alloca(numOfElementsInSlice * numOfSlices * dataSize)
-                       : YPtr;
+    if (YPtr == NULL) {
+      uint64_t tableSize = numOfElementsInSlice * numOfSlices * dataSize;
+      tempSliceTable = malloc(tableSize);
+      assert(tempSliceTable || tableSize == 0); // Error: "out of memory".
+    }
+    void *sliceDataPtr = (YPtr == NULL) ? tempSliceTable : YPtr;
     if ((Y != NULL) && (indices == NULL)) {
       // temporal indices buffer is necessary to generate Y from indices
-      indicesPtr = alloca(numOfSlices * sizeof(int64_t));
+      tempIndices = malloc(numOfSlices * sizeof(int64_t));
+      assert(tempIndices || numOfSlices == 0); // Error: "out of memory".
+      indicesPtr = tempIndices;
     }
     sliceTableInit(&sliceTable, dataType, sorted, numOfElementsInSlice,
         numOfSlices, sliceDataPtr, (uint64_t *)indicesPtr,
         (uint64_t *)inverseIndicesPtr, (uint64_t *)countsPtr);
-    void *sliceData = alloca(numOfElementsInSlice * dataSize);
+    tempSlice = malloc(numOfElementsInSlice * dataSize);
+    assert(tempSlice || numOfElementsInSlice == 0); // Error: "out of memory".
+    void *sliceData = tempSlice;
     for (int idxInSliceAxis = 0; idxInSliceAxis < numOfSlices;
          idxInSliceAxis++) {
       getSliceData(inputTensor, sliceAxis, idxInSliceAxis, sliceData);
@@ -444,6 +457,9 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
+  free(tempSliceTable);
+  free(tempIndices);
+  free(tempSlice);
   *totalPtr = count;
 #if _DEBUG_OMTENSOR
   printf("OMUnique: return (count = %d)\n", count);
-- 
2.43.0


From 32ccf3e1f4a680e745385b6d35444ecb423a5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 009/113] fix: Resize handles inputs whose rank is not 4

---
 src/Runtime/OMResize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index fbc7b1b..249004d 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -294,7 +294,7 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     }
     float r = interpolate_nd_with_x(
         /*OMTensor */ data,
-        /* n */ 4,
+        /* n */ rank,
         /*float scale_factor*/ scale_factor,
         /*floats *x*/ Xs,
         /* Coeff_Func_t*/ get_coeffs,
-- 
2.43.0


From e4ac7be8517699b9f40cb8a5d867b79d0d6ca015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 010/113] fix: Resize by scales writes exactly the allocated
 output

---
 src/Runtime/OMResize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 249004d..549400e 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -264,7 +264,9 @@ static void interpolate_nd_OMTensor(OMTensor *output_OMT, OMTensor *data,
     output_size = (int64_t *)malloc(sizeof(int64_t) * rank);
     assert(output_size); // Error: "failed to allocate memory for output_size".
     for (int i = 0; i < rank; i++) {
-      output_size[i] = scale_factor[i] * inputShape[i];
+      // The output was allocated with the size the compiler computed, which a
+      // product in float could exceed.
+      output_size[i] = omTensorGetShape(output_OMT)[i];
     }
   }
 
-- 
2.43.0


From 2d002a6fb8174ca7d33c25e8b0d78a50546cb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:27 +0000
Subject: [PATCH 011/113] fix: Resize picks the neighbors its coefficients were
 computed for

---
 src/Runtime/OMResize.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/Runtime/OMResize.c b/src/Runtime/OMResize.c
index 549400e..8383819 100644
--- a/src/Runtime/OMResize.c
+++ b/src/Runtime/OMResize.c
@@ -76,8 +76,8 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
   // If the central idx is right to x (>= x), favor the left one
   // == from the example
 
-  int pad_width = ceil(n / 2);
-  x += pad_width;
+  // Padding would not change the fraction of x but could round it away, and the
+  // neighbors must be those the coefficients were computed for.
   float r = x - floor(x);
 
   int start, end;
@@ -108,9 +108,6 @@ static void get_neighbor(float x, int64_t n, int limit, float *data,
     }
   }
 
-  start -= pad_width;
-  end -= pad_width;
-
   for (int i = start; i <= end; i++) {
     if (i < 0) {
       if (exclude_outside)
-- 
2.43.0


From fdc94d3e1881614e756e757428d3cf76296ad369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 012/113] fix: category lookup of int64 keys with 20 characters

---
 src/Runtime/OMIndexLookup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..dcbed82 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,7 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  char str[24]; // Room for INT64_MIN (20 characters) and the final zero.
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From fa40a5e3664d6dbe667f4482bb156fb8e5577611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 013/113] fix: RandomNormal of doubles uses its seed, negative
 seeds are well defined

---
 src/Runtime/OMRandomNormal.c  | 3 ++-
 src/Runtime/OMRandomUniform.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..76e70d6 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,13 +28,14 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand((unsigned int)(long long)seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
 
 void get_random_normal_value_f32(
     float *result, long long size, float mean, float scale, float seed) {
-  srand(seed);
+  srand((unsigned int)(long long)seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
diff --git a/src/Runtime/OMRandomUniform.c b/src/Runtime/OMRandomUniform.c
index 85573a1..2e87d0c 100644
--- a/src/Runtime/OMRandomUniform.c
+++ b/src/Runtime/OMRandomUniform.c
@@ -25,7 +25,7 @@ OMTensor *run_uniform_random_f32(
     OMTensor *output_tensor, float low, float high, float seed) {
   float *output_ptr = (float *)omTensorGetDataPtr(output_tensor);
   int64_t num_elements = omTensorGetNumElems(output_tensor);
-  srand((unsigned int)seed);
+  srand((unsigned int)(long long)seed);
   for (int64_t i = 0; i < num_elements; ++i) {
     float r = (float)rand() / ((float)RAND_MAX + 1.0f);
     output_ptr[i] = low + r * (high - low);
@@ -40,7 +40,7 @@ OMTensor *run_uniform_random_f64(
     OMTensor *output_tensor, double low, double high, double seed) {
   double *output_ptr = (double *)omTensorGetDataPtr(output_tensor);
   int64_t num_elements = omTensorGetNumElems(output_tensor);
-  srand((unsigned int)seed);
+  srand((unsigned int)(long long)seed);
   for (int64_t i = 0; i < num_elements; ++i) {
     double r = (double)rand() / ((double)RAND_MAX + 1.0);
     output_ptr[i] = low + r * (high - low);
-- 
2.43.0


From efc4abd88d6f22f89b03655b3fa485319a96dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 014/113] fix: category tables whose keys no plain hash seed
 separates

---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 16 ++++++++++++++++
 src/Runtime/OMIndexLookup.c               |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..6cb695c 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -29,15 +29,26 @@ namespace onnx_mlir {
 
 class Utilities {
 public:
+  // Seeds with this bit ask for the bits of the result to be mixed: without it,
+  // the low bits of the hash only depend on the low bits of the characters, and
+  // no seed may tell the keys of a bucket apart.
+  static constexpr uint32_t mixedSeed = 0x40000000;
+
   // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
   static inline uint32_t hash(uint32_t hval, llvm::StringRef str) {
     constexpr uint32_t prime = 0x01000193;
+    bool mixed = (hval & mixedSeed) != 0;
     hval = (hval == 0) ? prime : hval;
 
     for (const char c : str) {
       hval *= prime;
       hval ^= c;
     }
+    if (mixed) {
+      hval = (hval ^ (hval >> 16)) * 0x85ebca6b;
+      hval = (hval ^ (hval >> 13)) * 0xc2b2ae35;
+      hval ^= hval >> 16;
+    }
     return hval;
   }
 
@@ -139,6 +150,9 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
     return v1.size() > v2.size();
   });
 
+  // Number of plain seeds to try for a bucket before the mixed ones.
+  constexpr int32_t maxPlainSeed = 10000;
+
   uint32_t biMax = 0;
   for (uint32_t bi : Utilities::range(size)) {
     LLVM_DEBUG(llvm::dbgs() << "bi=" << bi << "\n");
@@ -158,6 +172,8 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
       if (V[slot] != -1 ||
           std::find(slots.begin(), slots.end(), slot) != slots.end()) {
         hval++;
+        if (hval == maxPlainSeed)
+          hval = Utilities::mixedSeed;
         item = 0;
         slots.clear();
       } else {
diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index dcbed82..6cc1263 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -20,6 +20,9 @@
 // Perform a 32-bit FNV (Fowler-Noll-Vo) hash on the given string.
 static inline uint32_t hash_string(uint32_t hval, const char *str) {
   uint32_t prime = 0x01000193;
+  // Seeds with this bit ask for the bits of the result to be mixed: without it,
+  // the low bits of the hash only depend on the low bits of the characters.
+  int mixed = (hval & 0x40000000) != 0;
   hval = (hval == 0) ? prime : hval;
 
   int32_t len = strlen(str);
@@ -28,6 +31,11 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
     hval *= prime;
     hval ^= c;
   }
+  if (mixed) {
+    hval = (hval ^ (hval >> 16)) * 0x85ebca6b;
+    hval = (hval ^ (hval >> 13)) * 0xc2b2ae35;
+    hval ^= hval >> 16;
+  }
   return hval;
 }
 
-- 
2.43.0


From db152cfb2ea93173f90f2025959aa2c14a089577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 015/113] fix: RandomUniform never returns its exclusive upper
 bound

---
 src/Runtime/OMRandomUniform.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/OMRandomUniform.c b/src/Runtime/OMRandomUniform.c
index 2e87d0c..f57deac 100644
--- a/src/Runtime/OMRandomUniform.c
+++ b/src/Runtime/OMRandomUniform.c
@@ -28,7 +28,9 @@ OMTensor *run_uniform_random_f32(
   srand((unsigned int)(long long)seed);
   for (int64_t i = 0; i < num_elements; ++i) {
     float r = (float)rand() / ((float)RAND_MAX + 1.0f);
-    output_ptr[i] = low + r * (high - low);
+    float value = low + r * (high - low);
+    // Rounding could reach or pass the exclusive bound.
+    output_ptr[i] = (low < high && value >= high) ? nextafterf(high, low) : value;
   }
   return output_tensor;
 }
@@ -43,7 +45,9 @@ OMTensor *run_uniform_random_f64(
   srand((unsigned int)(long long)seed);
   for (int64_t i = 0; i < num_elements; ++i) {
     double r = (double)rand() / ((double)RAND_MAX + 1.0);
-    output_ptr[i] = low + r * (high - low);
+    double value = low + r * (high - low);
+    // Rounding could reach or pass the exclusive bound.
+    output_ptr[i] = (low < high && value >= high) ? nextafter(high, low) : value;
   }
   return output_tensor;
 }
-- 
2.43.0


From 56e887d59ab58a7e970d08988705d3c4616347b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 016/113] fix: no dangling address of unloaded or partly read
 constants

---
 src/Runtime/OMExternalConstant.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..77534f2 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,8 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  // Neither unload it again nor take it for loaded.
+  constAddr[0] = NULL;
   return true;
 }
 
@@ -207,6 +209,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
           constAddr, /*alignment*/ PAGESIZE_IN_BYTES, /*size*/ fileSize)) {
     fprintf(stderr, "Failed to allocate %lld bytes for constants\n",
         (long long)fileSize);
+    constAddr[0] = NULL;
     return 1;
   }
 
@@ -228,6 +231,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Error reading constants at offset %lld: %s\n",
             (long long)(offset + totalRead), strerror(errno));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
@@ -235,6 +239,7 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
         fprintf(stderr, "Unexpected EOF reading constants at offset %lld\n",
             (long long)(offset + totalRead));
         free(constAddr[0]);
+        constAddr[0] = NULL;
         return 1;
       }
 
-- 
2.43.0


From ae830a6665637181e4557dc7e46f9d3d5ddeadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 017/113] fix: a constant file shorter than expected is a load
 error

---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 77534f2..097a762 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -264,6 +264,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Accessing a mapping past the end of the file would raise SIGBUS.
+  struct stat fileStat;
+  if (fstat(fd, &fileStat) != 0) {
+    fprintf(stderr, "Error while getting the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if ((int64_t)fileStat.st_size < fileSize) {
+    fprintf(stderr, "Constant file has %lld bytes, expected %lld\n",
+        (long long)fileStat.st_size, (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 00cebc8f486b4d4fec71a46b326218095b154a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 018/113] fix: half-precision helpers follow the x86-64 calling
 convention

---
 src/Runtime/OMTensor.inc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 4b645fc..44b415a 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -63,11 +63,28 @@ int *__errno_location(void) { return &errno; }
 // of these C runtime functions.
 // TODO: Figure out if we could get these with llvm/compiler-rt in a
 //       systematic way.
-float __extendhfsf2(uint16_t a) { return om_f16_to_f32(a); }
 float __gnu_h2f_ieee(uint16_t a) { return om_f16_to_f32(a); }
 uint16_t __gnu_f2h_ieee(float a) { return om_f32_to_f16(a); }
+#if defined(__x86_64__) && defined(__FLT16_MANT_DIG__)
+// The x86-64 ABI passes half-precision values of these functions in vector
+// registers.
+static inline _Float16 bitsToHalf(uint16_t bits) {
+  _Float16 half;
+  memcpy(&half, &bits, sizeof(half));
+  return half;
+}
+float __extendhfsf2(_Float16 a) {
+  uint16_t bits;
+  memcpy(&bits, &a, sizeof(bits));
+  return om_f16_to_f32(bits);
+}
+_Float16 __truncsfhf2(float a) { return bitsToHalf(om_f32_to_f16(a)); }
+_Float16 __truncdfhf2(double a) { return bitsToHalf(om_f32_to_f16(a)); }
+#else
+float __extendhfsf2(uint16_t a) { return om_f16_to_f32(a); }
 uint16_t __truncsfhf2(float a) { return om_f32_to_f16(a); }
 uint16_t __truncdfhf2(double a) { return om_f32_to_f16(a); }
+#endif
 
 struct OMTensor {
 #ifdef __cplusplus
-- 
2.43.0


From 9f3728904b8d7f068968c8731b469450fadc0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 019/113] fix: instrumentation reports every before and after
 event once

---
 src/Runtime/OMInstrument.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..32e0218 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
@@ -262,8 +262,11 @@ static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
   if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+      timeRecordBuffer[i].nodeName == nodeName &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag) &&
+      IS_INSTRUMENT_AFTER_OP(tag)) {
+    // Matching after of a before: can reuse entry, or the tags so we have bits
+    // for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From ae754d9f4fed44a4be30ea7412fb080a0ee614f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 020/113] fix: omInstrumentPrint completes and closes the
 report file

---
 src/Runtime/OMInstrument.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 32e0218..82b0ba0 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -89,6 +89,11 @@ static void resetLocalState() {
   instrumentReportMemoryDisabled = false;
   instrumentCounter = 0;
   psErrorCount = 0;
+  // Complete the report: closing also flushes what was not printed yet.
+  if (instrumentFout && instrumentFout != stdout)
+    fclose(instrumentFout);
+  else if (instrumentFout)
+    fflush(instrumentFout);
   instrumentFout = 0;
   instrumentInitialized = false;
   startReportPrinted = false;
-- 
2.43.0


From 37728e28619ffb20e4dca69d2910d71bfe2fb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 021/113] fix: no uninitialized memory report when ps prints
 nothing

---
 src/Runtime/OMInstrument.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 82b0ba0..3bbeb5e 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -198,14 +198,14 @@ static void ReportMemory() {
     psErrorCount++;
     return;
   }
-  (void)fgets(memOutput, 200, memPipe);
+  bool hasOutput = fgets(memOutput, 200, memPipe) != NULL;
   (void)fgetc(memPipe);
-  memOutput[strcspn(memOutput, "\n")] = 0;
-  if (!feof(memPipe)) {
+  if (!hasOutput || !feof(memPipe)) {
     fprintf(instrumentFout, ", error-unexpected-output-from-pipe\n");
     psErrorCount++;
   } else {
     // No error, print data.
+    memOutput[strcspn(memOutput, "\n")] = 0;
     fprintf(instrumentFout, ", %s\n", memOutput);
   }
   pclose(memPipe);
-- 
2.43.0


From 9ad87332f10371d094e625e55503ba4433fdf1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 022/113] fix: signal-protected runs restore SIGABRT, SIGILL
 and the signal mask

---
 src/Runtime/ExecutionSession.cpp | 16 +++++++++-------
 src/Runtime/ExecutionSession.hpp |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..394449e 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -41,7 +41,7 @@ namespace onnx_mlir {
 // =============================================================================
 // Static member initialization for signal handling (POSIX only)
 
-std::jmp_buf ExecutionSession::signalJumpBuffer;
+sigjmp_buf ExecutionSession::signalJumpBuffer;
 volatile sig_atomic_t ExecutionSession::signalCaught = 0;
 volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 
@@ -51,7 +51,7 @@ volatile sig_atomic_t ExecutionSession::signalNumber = 0;
 void ExecutionSession::signalHandler(int signum) {
   signalCaught = 1;
   signalNumber = signum;
-  std::longjmp(signalJumpBuffer, signum);
+  siglongjmp(signalJumpBuffer, signum);
 }
 #endif
 
@@ -435,7 +435,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -448,7 +448,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -456,8 +456,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
 
   OMTensorList *output = nullptr;
 
-  // Set up the jump point for signal handler
-  int signum = setjmp(signalJumpBuffer);
+  // Set up the jump point for signal handler. Save the signal mask too, as the
+  // caught signal is blocked while its handler runs.
+  int signum = sigsetjmp(signalJumpBuffer, /*savemask=*/1);
 
   if (signum == 0) {
     // First time through - run the inference
@@ -469,7 +470,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -483,6 +484,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..730da91 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -144,7 +144,7 @@ protected:
 #if !defined(_WIN32)
   // Signal handling infrastructure (POSIX only)
   static void signalHandler(int signum);
-  static std::jmp_buf signalJumpBuffer;
+  static sigjmp_buf signalJumpBuffer;
   static volatile sig_atomic_t signalCaught;
   static volatile sig_atomic_t signalNumber;
 #endif
-- 
2.43.0


From 539c987e55f398bb75815bfd0285e510051d0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 023/113] fix: a failed model load leaves no library,
 environment or session state

---
 src/Runtime/ExecutionSession.cpp | 33 ++++++++++++++++++++++----------
 src/Runtime/ExecutionSession.hpp |  5 ++++-
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 394449e..7405706 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -126,10 +126,23 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
     lowDashTag = "_" + tag;
 #endif
 
+  // Unless the load completes, do not keep the library.
+  struct UnloadOnFailure {
+    ExecutionSession &session;
+    bool completed = false;
+    ~UnloadOnFailure() {
+      if (!completed)
+        session.unloadModel();
+    }
+  } unloadOnFailure{*this};
+
   // Init symbols used by execution session.
 #if defined(_WIN32)
   _sharedLibraryHandle =
       llvm::sys::DynamicLibrary::getLibrary(sharedLibPath.c_str());
+  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
+  if (setOMConstantPath)
+    _putenv_s("OM_CONSTANT_PATH", "");
   if (!_sharedLibraryHandle.isValid())
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
@@ -137,6 +150,9 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Copy code from llvm/lib/Support/DynamicLibrary.cpp, especially the flags
   // ToFix: copy the lock related code too.
   _sharedLibraryHandle = dlopen(sharedLibPath.c_str(), RTLD_LAZY | RTLD_GLOBAL);
+  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
+  if (setOMConstantPath)
+    unsetenv("OM_CONSTANT_PATH");
   if (!_sharedLibraryHandle)
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
@@ -213,23 +229,17 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
 
+  unloadOnFailure.completed = true;
   errno = 0; // No errors.
 }
 
-ExecutionSession::~ExecutionSession() {
+ExecutionSession::~ExecutionSession() { unloadModel(); }
+
+void ExecutionSession::unloadModel() {
 #if defined(_WIN32)
   if (_sharedLibraryHandle.isValid())
     llvm::sys::DynamicLibrary::closeLibrary(_sharedLibraryHandle);
@@ -237,6 +247,9 @@ ExecutionSession::~ExecutionSession() {
   if (_sharedLibraryHandle)
     dlclose(_sharedLibraryHandle);
 #endif
+  _sharedLibraryHandle = DynamicLibraryHandleType();
+  _entryPointFunc = nullptr;
+  isInitialized = false;
 }
 
 // =============================================================================
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 730da91..9b8ccd8 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
@@ -182,6 +182,9 @@ protected:
   std::string sharedLibPath = "";
 
 protected:
+  // Close the library, back to the state of a session without a model.
+  void unloadModel();
+
   // Common implementation for both public run methods.
   OMTensorList *runImplementation(OMTensorList *input, bool useSignalHandler);
 
-- 
2.43.0


From 3bc92c5178db66137344ababc75695fae65b63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 024/113] fix: queryEntryPoints returns the C strings of the
 model

---
 src/Runtime/ExecutionSession.cpp | 5 ++---
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 7405706..e519b7f 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -255,13 +255,12 @@ void ExecutionSession::unloadModel() {
 // =============================================================================
 // Setter and getter.
 
-const std::string *ExecutionSession::queryEntryPoints(
+const char **ExecutionSession::queryEntryPoints(
     int64_t *numOfEntryPoints) const {
   if (!isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once.");
-  return reinterpret_cast<const std::string *>(
-      _queryEntryPointsFunc(numOfEntryPoints));
+  return _queryEntryPointsFunc(numOfEntryPoints);
 }
 
 void ExecutionSession::setEntryPoint(const std::string &entryPointName) {
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index 9b8ccd8..f4ac6ed 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -85,7 +85,7 @@ public:
   // For example {"run_addition, "run_subtraction", NULL}
   // In order to get the number of entry points, pass an integer pointer to the
   // function.
-  const std::string *queryEntryPoints(int64_t *numOfEntryPoints) const;
+  const char **queryEntryPoints(int64_t *numOfEntryPoints) const;
 
   // Set entry point for this session.
   // Call this before running the session or querying signatures if
-- 
2.43.0


From 431c93eed2f09cd5013d5a5f274c350e86d9c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 025/113] fix: loadModel records the path of the model

---
 src/Runtime/ExecutionSession.cpp | 3 ++-
 src/Runtime/ExecutionSession.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index e519b7f..86cafc4 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -68,13 +68,14 @@ ExecutionSession::ExecutionSession(const std::string &sharedLibPath,
 // null, it is not necessarily an error (in corner cases); but for us it would
 // be because we expect all our symbols to be defined to non-null.
 
-void ExecutionSession::loadModel(const std::string &sharedLibPath,
+void ExecutionSession::loadModel(const std::string &modelPath,
     const std::string &modelTag, const bool defaultEntryPoint) {
   if (isInitialized)
     throw ExecutionSessionException(
         "Execution session must be initialized once at most.");
 
   std::string tag = modelTag;
+  sharedLibPath = modelPath;
 
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
   // this before dlopen since OM_CONSTANT_PATH is used by constructors.
diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index f4ac6ed..1123820 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -78,7 +78,7 @@ public:
   ~ExecutionSession();
 
   // Initialization of library. Called by public constructor, or by subclasses.
-  void loadModel(const std::string &sharedLibPath, const std::string &tag = "",
+  void loadModel(const std::string &modelPath, const std::string &tag = "",
       const bool defaultEntryPoint = true);
 
   // Get a NULL-terminated array of entry point names.
-- 
2.43.0


From 201c41c5c6d4179ed56a430a47a8167261d29f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 026/113] fix: report an entry point without signature as a
 session error

---
 src/Runtime/ExecutionSession.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 86cafc4..68ee652 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -290,8 +290,12 @@ const std::string ExecutionSession::inputSignature() const {
     throw ExecutionSessionException(
         "Must set an entry point (e.g. run_main_graph) before calling "
         "signature function.");
+  const char *signature = _inputSignatureFunc(_entryPointName.c_str());
+  if (!signature)
+    throw ExecutionSessionException(
+        "No input signature for entry point: '" + _entryPointName + "'.");
   errno = 0; // No errors.
-  return _inputSignatureFunc(_entryPointName.c_str());
+  return signature;
 }
 
 const std::string ExecutionSession::outputSignature() const {
@@ -302,8 +306,12 @@ const std::string ExecutionSession::outputSignature() const {
     throw ExecutionSessionException(
         "Must set an entry point (e.g. run_main_graph) before calling "
         "signature function.");
+  const char *signature = _outputSignatureFunc(_entryPointName.c_str());
+  if (!signature)
+    throw ExecutionSessionException(
+        "No output signature for entry point: '" + _entryPointName + "'.");
   errno = 0; // No errors.
-  return _outputSignatureFunc(_entryPointName.c_str());
+  return signature;
 }
 
 const std::string ExecutionSession::compilationInfo() const {
-- 
2.43.0


From 60394c6f0b7406cb30a663363cd72c547d9ac8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:13 +0000
Subject: [PATCH 027/113] fix: concurrent model loads do not share
 OM_CONSTANT_PATH

---
 src/Runtime/ExecutionSession.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 68ee652..818b089 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -22,6 +22,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <sstream>
 #include <vector>
 
@@ -78,7 +79,10 @@ void ExecutionSession::loadModel(const std::string &modelPath,
   sharedLibPath = modelPath;
 
   // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
-  // this before dlopen since OM_CONSTANT_PATH is used by constructors.
+  // this before dlopen since OM_CONSTANT_PATH is used by constructors. The
+  // environment is shared by the process: one model is opened at a time.
+  static std::mutex openMutex;
+  std::unique_lock<std::mutex> openLock(openMutex);
   bool setOMConstantPath = false;
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
@@ -144,6 +148,7 @@ void ExecutionSession::loadModel(const std::string &modelPath,
   // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
   if (setOMConstantPath)
     _putenv_s("OM_CONSTANT_PATH", "");
+  openLock.unlock();
   if (!_sharedLibraryHandle.isValid())
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
@@ -154,6 +159,7 @@ void ExecutionSession::loadModel(const std::string &modelPath,
   // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
   if (setOMConstantPath)
     unsetenv("OM_CONSTANT_PATH");
+  openLock.unlock();
   if (!_sharedLibraryHandle)
     throw ExecutionSessionException(
         "Cannot open library: '" + sharedLibPath + "'.");
-- 
2.43.0


From 0fc2f17fcdf555194cee32f74ed2fe035850bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 028/113] fix: random tensors keep to the requested bounds for
 every type

---
 src/Runtime/OMTensorHelper.cpp | 94 ++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index 2e91679..aa07dc3 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -19,8 +19,10 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <random>
 #include <string>
 #include <type_traits>
@@ -46,6 +48,47 @@ unsigned int omDefineSeed(unsigned int seed, unsigned int hasSeedValue) {
   return seed;
 }
 
+// =============================================================================
+// Internal: bounds of a distribution over T. Integral bounds are clamped to the
+// range of T. Return false when there is no such distribution.
+
+template <typename T>
+static bool getRandomBounds(double lbound, double ubound, T &lo, T &hi) {
+  if (!(lbound <= ubound))
+    return false;
+  const double min = static_cast<double>(std::numeric_limits<T>::lowest());
+  const double max = static_cast<double>(std::numeric_limits<T>::max());
+  if constexpr (std::is_integral<T>::value) {
+    if (ubound < min || lbound > max)
+      return false;
+    auto clamp = [&](double v) {
+      if (v <= min)
+        return std::numeric_limits<T>::lowest();
+      if (v >= max)
+        return std::numeric_limits<T>::max();
+      return static_cast<T>(v);
+    };
+    lo = clamp(lbound);
+    hi = clamp(ubound);
+    return true;
+  } else {
+    if (lbound < min || ubound > max)
+      return false;
+    lo = static_cast<T>(lbound);
+    hi = static_cast<T>(ubound);
+    return std::isfinite(hi - lo);
+  }
+}
+
+static OMTensor *reportRandomBounds(
+    OM_DATA_TYPE omType, double lbound, double ubound) {
+  fprintf(stderr,
+      "omTensorCreateWithRandomData: no random values of OM_DATA_TYPE %d "
+      "within [%g, %g].\n",
+      (int)omType, lbound, ubound);
+  return nullptr;
+}
+
 // =============================================================================
 // Internal: fill a typed buffer with random values in [lbound, ubound].
 // Uses the shared omRandomGenerator.  Re-seeds if omUseOneSeed is not set.
@@ -61,17 +104,12 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
     return;
   }
   if constexpr (std::is_integral<T>::value) {
-    if constexpr (sizeof(T) <= 4) {
-      std::uniform_int_distribution<int32_t> dis(
-          static_cast<int32_t>(lbound), static_cast<int32_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    } else {
-      std::uniform_int_distribution<int64_t> dis(
-          static_cast<int64_t>(lbound), static_cast<int64_t>(ubound));
-      std::generate(buf, buf + n,
-          [&]() { return static_cast<T>(dis(omRandomGenerator)); });
-    }
+    // Distributions are not defined for types narrower than short.
+    using D = typename std::conditional<(sizeof(T) < 4), int32_t, T>::type;
+    std::uniform_int_distribution<D> dis(
+        static_cast<D>(lbound), static_cast<D>(ubound));
+    std::generate(buf, buf + n,
+        [&]() { return static_cast<T>(dis(omRandomGenerator)); });
   } else {
     std::uniform_real_distribution<T> dis(lbound, ubound);
     std::generate(buf, buf + n, [&]() { return dis(omRandomGenerator); });
@@ -85,7 +123,11 @@ static void fillBufferWithRandom(T *buf, int64_t n, T lbound, T ubound) {
 
 template <typename T>
 static OMTensor *omTensorCreateWithRandomData(
-    const std::vector<int64_t> &shape, T lbound, T ubound, OM_DATA_TYPE dtype) {
+    const std::vector<int64_t> &shape, double lb, double ub,
+    OM_DATA_TYPE dtype) {
+  T lbound, ubound;
+  if (!getRandomBounds<T>(lb, ub, lbound, ubound))
+    return reportRandomBounds(dtype, lb, ub);
   int64_t numElems = 1;
   for (auto d : shape)
     numElems *= d;
@@ -110,6 +152,8 @@ static OMTensor *omTensorCreateFloat16WithRandomData(
 
 OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
     OM_DATA_TYPE omType, double lbound, double ubound) {
+  if (!(lbound <= ubound))
+    return reportRandomBounds(omType, lbound, ubound);
   switch (omType) {
   case ONNX_TYPE_BOOL:
     // Clamp bounds to {false, true}: values > 0.5 → true, ≤ 0.5 → false.
@@ -117,34 +161,37 @@ OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
         shape, lbound > 0.5, ubound > 0.5, omType);
   case ONNX_TYPE_INT8:
     return omTensorCreateWithRandomData<int8_t>(
-        shape, (int8_t)lbound, (int8_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_UINT8:
     return omTensorCreateWithRandomData<uint8_t>(
-        shape, (uint8_t)lbound, (uint8_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_INT16:
     return omTensorCreateWithRandomData<int16_t>(
-        shape, (int16_t)lbound, (int16_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_UINT16:
     return omTensorCreateWithRandomData<uint16_t>(
-        shape, (uint16_t)lbound, (uint16_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_INT32:
     return omTensorCreateWithRandomData<int32_t>(
-        shape, (int32_t)lbound, (int32_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_UINT32:
     return omTensorCreateWithRandomData<uint32_t>(
-        shape, (uint32_t)lbound, (uint32_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_INT64:
     return omTensorCreateWithRandomData<int64_t>(
-        shape, (int64_t)lbound, (int64_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_UINT64:
     return omTensorCreateWithRandomData<uint64_t>(
-        shape, (uint64_t)lbound, (uint64_t)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_FLOAT:
     return omTensorCreateWithRandomData<float>(
-        shape, (float)lbound, (float)ubound, omType);
+        shape, lbound, ubound, omType);
   case ONNX_TYPE_DOUBLE:
     return omTensorCreateWithRandomData<double>(shape, lbound, ubound, omType);
   case ONNX_TYPE_FLOAT16:
+    // Largest finite value of the type.
+    if (lbound < -65504.0 || ubound > 65504.0)
+      return reportRandomBounds(omType, lbound, ubound);
     return omTensorCreateFloat16WithRandomData(
         shape, (float)lbound, (float)ubound);
   case ONNX_TYPE_STRING: {
@@ -158,7 +205,10 @@ OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
     for (auto d : shape)
       numElems *= d;
     // Create strings into a vector of strings.
-    std::uniform_int_distribution<int> dist((int)lbound, (int)ubound);
+    int lo, hi;
+    if (!getRandomBounds<int>(lbound, ubound, lo, hi))
+      return reportRandomBounds(omType, lbound, ubound);
+    std::uniform_int_distribution<int> dist(lo, hi);
     std::vector<std::string> strings((size_t)numElems);
     for (int64_t e = 0; e < numElems; ++e)
       strings[e] = std::to_string(dist(omRandomGenerator));
-- 
2.43.0


From 8d012557227487d38099b043b513150550243477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 029/113] fix: soz data of rows without elements

---
 src/Runtime/OMTensorHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index aa07dc3..e266bbd 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -296,7 +296,8 @@ OMTensor *omTensorCreateSozData(
   };
 
   for (int64_t row = 0; row < numRows; ++row) {
-    int64_t n = (sozCount < 0) ? dist(omRandomGenerator) : fixedN;
+    int64_t n = (sozCount < 0) ? std::min(dist(omRandomGenerator), innerDim)
+                               : fixedN;
     char *rowPtr = (char *)buf + row * innerDim * elemSize;
     switch (omType) {
     case ONNX_TYPE_BOOL:
-- 
2.43.0


From 14a2b576ae2e2ee196cd030b46df5cf0340fcd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 030/113] fix: random data of shapes too large to address

---
 src/Runtime/OMTensorHelper.cpp | 48 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/Runtime/OMTensorHelper.cpp b/src/Runtime/OMTensorHelper.cpp
index e266bbd..7d15d94 100644
--- a/src/Runtime/OMTensorHelper.cpp
+++ b/src/Runtime/OMTensorHelper.cpp
@@ -48,6 +48,26 @@ unsigned int omDefineSeed(unsigned int seed, unsigned int hasSeedValue) {
   return seed;
 }
 
+// =============================================================================
+// Internal: number of elements of a shape. Return false when a dimension is
+// negative or the data is too large to address.
+
+static bool getNumElems(
+    const std::vector<int64_t> &shape, int64_t elemSize, int64_t &numElems) {
+  const int64_t max = std::numeric_limits<int64_t>::max() / elemSize;
+  numElems = 1;
+  bool tooLarge = false;
+  for (int64_t d : shape) {
+    if (d < 0)
+      return false;
+    if (d != 0 && numElems > max / d)
+      tooLarge = true;
+    else
+      numElems *= d;
+  }
+  return !tooLarge;
+}
+
 // =============================================================================
 // Internal: bounds of a distribution over T. Integral bounds are clamped to the
 // range of T. Return false when there is no such distribution.
@@ -128,9 +148,9 @@ static OMTensor *omTensorCreateWithRandomData(
   T lbound, ubound;
   if (!getRandomBounds<T>(lb, ub, lbound, ubound))
     return reportRandomBounds(dtype, lb, ub);
-  int64_t numElems = 1;
-  for (auto d : shape)
-    numElems *= d;
+  int64_t numElems;
+  if (!getNumElems(shape, sizeof(T), numElems))
+    return nullptr;
   T *buf = (T *)malloc(numElems * sizeof(T));
   if (!buf)
     return nullptr;
@@ -201,9 +221,9 @@ OMTensor *omTensorCreateWithRandomData(const std::vector<int64_t> &shape,
       std::random_device rd;
       omRandomGenerator.seed(rd());
     }
-    int64_t numElems = 1;
-    for (auto d : shape)
-      numElems *= d;
+    int64_t numElems;
+    if (!getNumElems(shape, sizeof(char *), numElems))
+      return nullptr;
     // Create strings into a vector of strings.
     int lo, hi;
     if (!getRandomBounds<int>(lbound, ubound, lo, hi))
@@ -242,9 +262,9 @@ static OMTensor *omTensorCreateFloat16WithRandomData(
     std::random_device rd;
     omRandomGenerator.seed(rd());
   }
-  int64_t numElems = 1;
-  for (auto d : shape)
-    numElems *= d;
+  int64_t numElems;
+  if (!getNumElems(shape, sizeof(uint16_t), numElems))
+    return nullptr;
   uint16_t *buf = (uint16_t *)malloc(numElems * sizeof(uint16_t));
   if (!buf)
     return nullptr;
@@ -265,14 +285,12 @@ OMTensor *omTensorCreateSozData(
     const std::vector<int64_t> &shape, OM_DATA_TYPE omType, int64_t sozCount) {
   if (shape.empty())
     return nullptr;
-  int64_t innerDim = shape.back();
-  int64_t numRows = 1;
-  for (size_t i = 0; i + 1 < shape.size(); ++i)
-    numRows *= shape[i];
-  int64_t numElems = numRows * innerDim;
   int64_t elemSize = (int64_t)OM_DATA_TYPE_SIZE[omType];
-  if (elemSize <= 0)
+  int64_t numElems;
+  if (elemSize <= 0 || !getNumElems(shape, elemSize, numElems))
     return nullptr;
+  int64_t innerDim = shape.back();
+  int64_t numRows = innerDim > 0 ? numElems / innerDim : 0;
 
   void *buf = calloc((size_t)numElems, (size_t)elemSize);
   if (!buf)
-- 
2.43.0


From 07a8c2f6fc51faca7aa5a9d986b210197f981682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 031/113] fix: truncated, untyped, escaped or empty input
 signatures

---
 src/Runtime/OMTensorListHelper.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..e1abee3 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -221,8 +221,11 @@ static bool parseJsonStr(std::string_view &s, std::string &out) {
   if (s.empty() || s[0] != '"')
     return false;
   s = s.substr(1);
-  size_t end = s.find('"');
-  if (end == std::string_view::npos)
+  // Skip over escaped characters.
+  size_t end = 0;
+  while (end < s.size() && s[end] != '"')
+    end += s[end] == '\\' ? 2 : 1;
+  if (end >= s.size())
     return false;
   out.assign(s.data(), end);
   s = s.substr(end + 1);
@@ -272,7 +275,7 @@ static OM_DATA_TYPE typeStringToOMDataType(const std::string &typeStr) {
 }
 
 struct SigEntry {
-  OM_DATA_TYPE type;
+  OM_DATA_TYPE type = ONNX_TYPE_UNDEFINED;
   std::vector<int64_t> dims;
 };
 
@@ -349,9 +352,12 @@ static bool parseSignatureInfo(
         parseJsonStr(s, tmp);
       }
     }
+    if (entry.type == ONNX_TYPE_UNDEFINED)
+      return reportFailure("Signature entry without type");
     entries.push_back(std::move(entry));
   }
-  return !entries.empty();
+  // An input signature without entries is the one of a model without inputs.
+  return consume(s, ']');
 }
 
 static const char *omDataTypeToString(OM_DATA_TYPE type) {
-- 
2.43.0


From 4436e2d61cdf3ca0b41321499445f001a18ce61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 032/113] fix: strides of Python inputs describe the data that
 is passed

---
 src/Runtime/python/PyRuntime.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..be3f54a 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,9 +33,13 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            # The strides are these of the data given, which is in row-major
+            # order even when the layout of the input is not.
+            data = inp.ravel()
+            pyrun_inputs.append(data)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            strides = data.reshape(inp.shape).strides
+            pyrun_strides.append(np.array(strides, dtype=np.int64))
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
@@ -52,9 +56,13 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
-            pyrun_inputs.append(inp.ravel())
+            # The strides are these of the data given, which is in row-major
+            # order even when the layout of the input is not.
+            data = inp.ravel()
+            pyrun_inputs.append(data)
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
-            pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
+            strides = data.reshape(inp.shape).strides
+            pyrun_strides.append(np.array(strides, dtype=np.int64))
         return super(OMExecutionSession, self)._runImplementation(
             pyrun_inputs,
             pyrun_shapes,
-- 
2.43.0


From c1cb43d8bd7648b996d6f327ce80231fc7e28065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 033/113] fix: string outputs of Python sessions

---
 src/Runtime/python/PyExecutionSession.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..8069e24 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -118,6 +118,9 @@ static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
 #include "onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
 #undef OM_TYPE_METADATA_DEF
   };
+  // Strings are Python objects: "str" has room for characters, not pointers.
+  if (type == ONNX_TYPE_STRING)
+    return "object";
   if (type >= 0 && type <= ONNX_TYPE_LAST && names[type][0] != '\0')
     return names[type];
   return nullptr;
@@ -344,7 +347,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
     if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy) {
+      if (forceOutputDataCopy || omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
         // force copy of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
-- 
2.43.0


From 4675b3f4760459569864e7eb9a1f7e9a41107ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 034/113] fix: Python outputs that share an allocation

---
 src/Runtime/python/PyExecutionSession.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 8069e24..c9341fa 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -13,6 +13,9 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <map>
+#include <set>
+
 #include "PyExecutionSession.hpp"
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
@@ -299,10 +302,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
   std::vector<py::array> outputPyArrays;
-  // Maintain an 1-to-1 mapping between data pointers and py::capsules, to avoid
-  // creating two capsules for the same pointer. Otherwise, it causes double
-  // free error.
+  // Maintain an 1-to-1 mapping between allocated pointers and py::capsules, to
+  // avoid creating two capsules for the same allocation. Otherwise, it causes
+  // double free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
+  std::set<void *> copiedAllocPtrs;
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
@@ -349,14 +353,16 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     if (omTensorGetOwning(omt)) {
       if (forceOutputDataCopy || omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
         // force copy of result, leaving ownership on so that it be destroyed at
-        // the end.
+        // the end; once only when several outputs share the allocation.
+        if (!copiedAllocPtrs.insert(omtAllocPtr).second)
+          omTensorSetOwning(omt, false);
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
       } else {
         // We have a regular tensor which we will need to free at the right
         // time. Create the capsule that points to the data to be freed
         // (allocated pointer).
         py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
+        auto it = mapPtrCapsule.find(omtAllocPtr);
         if (it != mapPtrCapsule.end()) {
           free_data_with_allocate_ptr = it->second;
         } else {
@@ -365,7 +371,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
               [](void *ptr) { /* Lambda function that performs the freeing. */
                 free(ptr);
               });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
+          mapPtrCapsule.try_emplace(omtAllocPtr, free_data_with_allocate_ptr);
         }
         // Set owning to false as we migrate the ownership to python
         omTensorSetOwning(omt, false);
-- 
2.43.0


From 118cd84bec4f3e374eef68c514701b1705f3463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 035/113] fix: failing Python runs release their inputs and
 outputs

---
 src/Runtime/python/PyExecutionSession.cpp | 49 ++++++++++++++---------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index c9341fa..a913d94 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -55,6 +55,9 @@ struct npy_format_descriptor<onnx_mlir::float_16> {
 
 namespace onnx_mlir {
 
+using OMTensorListUniquePtr =
+    std::unique_ptr<OMTensorList, decltype(&omTensorListDestroy)>;
+
 //
 // Generate OMTensor's buffer for string input in pyArray
 //
@@ -153,7 +156,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
-  std::vector<OMTensor *> omts;
+  std::vector<OMTensorUniquePtr> omts;
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -170,6 +173,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
           "Expect contiguous python array.");
     void *dataPtr;
     int64_t ownData = 0;
+    std::unique_ptr<void, decltype(&free)> copyGuard(nullptr, free);
     if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
     } else {
@@ -180,6 +184,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "Failed to allocate data buffer for copied data.");
       memcpy(copiedData, inputPyArray.data(), inputPyArray.nbytes());
       dataPtr = copiedData;
+      copyGuard.reset(copiedData);
       // We want OMTensor to free up the memory space upon destruction.
       ownData = 1;
     }
@@ -270,16 +275,27 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "fail to allocate Tensor for input data");
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
     }
-    omts.emplace_back(inputOMTensor);
+    // String data has been copied by itself.
+    if (dtype != ONNX_TYPE_STRING)
+      copyGuard.release();
+    omts.emplace_back(inputOMTensor, omTensorDestroy);
   }
   TIMING_STOP_PRINT(process_input);
 
   // 2. Call entry point: create list.
   TIMING_INIT_START(inference);
-  OMTensorList *wrappedInput = omTensorListCreate(omts.data(), omts.size());
+  std::vector<OMTensor *> omtPtrs;
+  for (const OMTensorUniquePtr &omt : omts)
+    omtPtrs.emplace_back(omt.get());
+  OMTensorListUniquePtr inputOwner(
+      omTensorListCreate(omtPtrs.data(), omtPtrs.size()), omTensorListDestroy);
+  OMTensorList *wrappedInput = inputOwner.get();
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  // The list owns the tensors from here.
+  for (OMTensorUniquePtr &omt : omts)
+    omt.release();
   // Call
   OMTensorList *wrappedOutput = nullptr;
   {
@@ -294,10 +310,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(inference);
 
   // Check if inference succeeded and returned valid output
-  if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
+  if (!wrappedOutput)
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
-  }
+  OMTensorListUniquePtr outputOwner(wrappedOutput, omTensorListDestroy);
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
@@ -310,8 +325,6 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -322,13 +335,10 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
-    }
     py::dtype dtype(dtypeName);
     TIMING_STOP_PRINT(process_output_types);
 
@@ -390,11 +400,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  outputOwner.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  inputOwner.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
@@ -408,12 +418,14 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
     const std::string &defaultLowerBound, const std::string &defaultUpperBound,
     int seed, bool verbose) {
   // fillInputDebug throws ExecutionSessionException on failure.
-  OMTensorList *inputs =
+  OMTensorListUniquePtr inputOwner(
       fillInputDebug(shapeInfo.empty() ? nullptr : shapeInfo.c_str(),
           valueInfo.empty() ? nullptr : valueInfo.c_str(),
           defaultLowerBound.empty() ? nullptr : defaultLowerBound.c_str(),
           defaultUpperBound.empty() ? nullptr : defaultUpperBound.c_str(), seed,
-          verbose);
+          verbose),
+      omTensorListDestroy);
+  OMTensorList *inputs = inputOwner.get();
 
   // Convert the C++ OMTensorList to a Python list of numpy arrays so that:
   // 1. Python callers can inspect and modify individual inputs before
@@ -428,15 +440,12 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
         omTensorGetShape(omt), omTensorGetShape(omt) + omTensorGetRank(omt));
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
-    if (!dtypeName) {
-      omTensorListDestroy(inputs);
+    if (!dtypeName)
       throw onnx_mlir::ExecutionSessionException(
           "pyFillInputDebug: unsupported tensor type at index " +
           std::to_string(i));
-    }
     result.emplace_back(copyTensorToPyArray(py::dtype(dtypeName), shape, omt));
   }
-  omTensorListDestroy(inputs);
   return result;
 }
 
-- 
2.43.0


From 392c68e744045a964713b6b6bbce7d492a52acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 036/113] fix: output name, input and tag are read from the
 flags as the compiler does

---
 src/Compiler/CommandUtils.cpp | 121 ++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 58 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..e541ae2 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -79,27 +79,50 @@ std::vector<std::string> parseFlags(const std::string &flags) {
   return flagVect;
 }
 
-static std::string getOutputBasenameFromFlags(
-    const std::vector<std::string> &flagVect) {
-  // Get output file name from the flags.
+// Find the value of the option `name` in the flags, which the compiler accepts
+// with one or two dashes, and with its value after a '=' or in the next flag.
+// Return the index of the flag with the value, or -1 if there is none.
+static int findOptionValue(const std::vector<std::string> &flagVect,
+    const std::string &name, std::string &value) {
   int num = flagVect.size();
   for (int i = 0; i < num; ++i) {
-    if (flagVect[i].find("-o=", 0, 3) == 0) {
-      if (flagVect[i].length() > 3) {
-        return flagVect[i].substr(3);
-      } else
-        fprintf(
-            stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
-      if (i < num - 1) {
-        return flagVect[i + 1];
-        break;
-      } else {
-        fprintf(stderr, "Parsing `-o` option, expected a name. Use default.\n");
+    const std::string &flag = flagVect[i];
+    if (flag.empty() || flag[0] != '-')
+      continue;
+    std::string option = flag.substr(flag.compare(0, 2, "--") == 0 ? 2 : 1);
+    if (option.compare(0, name.size() + 1, name + "=") == 0) {
+      value = option.substr(name.size() + 1);
+      return i;
+    }
+    bool hasValueInNextFlag = option == "o" || option == "tag";
+    if (option == name) {
+      if (i + 1 < num) {
+        value = flagVect[i + 1];
+        return i + 1;
       }
+      fprintf(stderr, "Parsing `%s` option, expected a value. Use default.\n",
+          flag.c_str());
     }
+    if (hasValueInNextFlag)
+      ++i; // Do not mistake the value for an option.
   }
-  return "";
+  return -1;
+}
+
+// The compiler ignores output names that do not specify a file.
+static bool isIgnoredOutputName(const std::string &outputName) {
+  std::string name = outputName.substr(outputName.find_last_of("/\\") + 1);
+  return outputName == "-" || name.find_first_not_of('.') == std::string::npos;
+}
+
+static std::string getOutputBasenameFromFlags(
+    const std::vector<std::string> &flagVect) {
+  // Get output file name from the flags.
+  std::string outputName;
+  if (findOptionValue(flagVect, "o", outputName) == -1 ||
+      isIgnoredOutputName(outputName))
+    return "";
+  return outputName;
 }
 
 static EmissionTargetType getEmissionTargetFromFlags(
@@ -145,6 +168,8 @@ std::string getInputFilename(
     return inputFilename;
   for (size_t i = 0; i < flags.size(); ++i) {
     const std::string &arg = flags[i];
+    if (arg == "-o" || arg == "--o")
+      ++i; // Skip the name of the output.
     if (!arg.empty() && arg[0] == '-')
       continue;
     // Check if it ends with ".onnx, mlir, or onnxtext".
@@ -196,16 +221,7 @@ std::string getOutputFilename(const std::string &inputFilename,
 
 std::string getModelTag(const std::vector<std::string> &flagVect) {
   std::string modelTag = "";
-  for (int i = 0; i < (int)flagVect.size(); ++i) {
-    if (flagVect[i].find("--tag=") == 0) {
-      modelTag = flagVect[i].substr(6);
-      break;
-    }
-    if (flagVect[i].find("-tag=") == 0) {
-      modelTag = flagVect[i].substr(5);
-      break;
-    }
-  }
+  findOptionValue(flagVect, "tag", modelTag);
   return modelTag;
 }
 
@@ -215,43 +231,32 @@ void applyOutputPath(std::vector<std::string> &flagVect,
   if (outputPath.empty())
     return;
 
-  // Loop through flags to find -o option.
-  int num = flagVect.size();
-  for (int i = 0; i < num; ++i) {
-    if (flagVect[i].find("-o=", 0, 3) == 0 && flagVect[i].length() > 3) {
-      // Found -o=value format.
-      std::string outputBasename = flagVect[i].substr(3);
-      fs::path p(outputBasename);
-      fs::path parentPath = p.parent_path();
-
-      if (parentPath.empty()) {
-        // No path component, prepend outputPath.
-        fs::path newPath = fs::path(outputPath) / p.filename();
-        flagVect[i] = "-o=" + newPath.string();
-      }
-      // Otherwise path exists, leave unchanged.
-      return;
-    } else if (flagVect[i] == "-o" && i < num - 1) {
-      // Found -o value format.
-      std::string outputBasename = flagVect[i + 1];
-      fs::path p(outputBasename);
-      fs::path parentPath = p.parent_path();
+  // Name from the input, used when no -o option gives one.
+  fs::path inputPath(inputFilename);
+  std::string inputBasename = inputPath.stem().string();
+  fs::path outputFilePath = fs::path(outputPath) / inputBasename;
 
-      if (parentPath.empty()) {
-        // No path component, prepend outputPath.
-        fs::path newPath = fs::path(outputPath) / p.filename();
-        flagVect[i + 1] = newPath.string();
-      }
+  // Find -o option.
+  std::string outputBasename;
+  int i = findOptionValue(flagVect, "o", outputBasename);
+  if (i != -1) {
+    fs::path p(outputBasename);
+    std::string newName;
+    if (isIgnoredOutputName(outputBasename))
+      newName = outputFilePath.string();
+    else if (p.parent_path().empty())
+      // No path component, prepend outputPath.
+      newName = (fs::path(outputPath) / p.filename()).string();
+    else
       // Otherwise path exists, leave unchanged.
       return;
-    }
+    // Replace the value, which is the end of its flag.
+    flagVect[i].replace(flagVect[i].size() - outputBasename.size(),
+        outputBasename.size(), newName);
+    return;
   }
 
-  // Mo -o option found, add one based on outputPath and input basename.
-  fs::path inputPath(inputFilename);
-  std::string inputBasename = inputPath.stem().string();
-  fs::path outputFilePath = fs::path(outputPath) / inputBasename;
-
+  // No -o option found, add one based on outputPath and input basename.
   flagVect.push_back("-o");
   flagVect.push_back(outputFilePath.string());
 }
-- 
2.43.0


From ba7f97de1c300d7e699f47caa0eacb37e24e5ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 037/113] fix: predicted output of a model given in the flags

---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..9887735 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -765,7 +765,8 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  onnx_mlir::applyOutputPath(flagVect, outputPath,
+      onnx_mlir::getInputFilename(modelPath, flagVect));
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
   std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
-- 
2.43.0


From 13c963cc3ab474f4beef1b087d3a27560d29088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 038/113] fix: constants file of outputs in another directory

---
 src/Compiler/CommandUtils.cpp | 8 +++++++-
 src/Compiler/CommandUtils.hpp | 4 ++++
 src/Compiler/OMCompile.cpp    | 3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index e541ae2..96b92f7 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -205,7 +205,7 @@ std::string getTargetFilename(
   }
 }
 
-std::string getOutputFilename(const std::string &inputFilename,
+std::string getOutputBasename(const std::string &inputFilename,
     const std::vector<std::string> &flagVect) {
   std::string outputBasename = getOutputBasenameFromFlags(flagVect);
   // If no output file name, derive it from input file basename
@@ -214,6 +214,12 @@ std::string getOutputFilename(const std::string &inputFilename,
     // Base name, strip
     outputBasename = filename.substr(0, filename.find_last_of("."));
   }
+  return outputBasename;
+}
+
+std::string getOutputFilename(const std::string &inputFilename,
+    const std::vector<std::string> &flagVect) {
+  std::string outputBasename = getOutputBasename(inputFilename, flagVect);
   EmissionTargetType targetType =
       getEmissionTargetFromFlags(inputFilename, flagVect);
   return getTargetFilename(outputBasename, targetType);
diff --git a/src/Compiler/CommandUtils.hpp b/src/Compiler/CommandUtils.hpp
index 0ec1779..c160896 100644
--- a/src/Compiler/CommandUtils.hpp
+++ b/src/Compiler/CommandUtils.hpp
@@ -49,6 +49,10 @@ void applyOutputPath(std::vector<std::string> &flagVect,
 // Get the name of the output, first from scanning the compiler flags for a -o
 // option, and if not found, from the basename of the input file name (using
 // getInputFilename above).
+// Output file name without the extension of the emission target.
+std::string getOutputBasename(
+    const std::string &inputFilename, const std::vector<std::string> &flagVect);
+
 std::string getOutputFilename(
     const std::string &inputFilename, const std::vector<std::string> &flagVect);
 
diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 9887735..5632dea 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -676,7 +676,8 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   successfullyCompiled = true;
 
   // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
+  std::string constFilename = getAbsolutePathUsingCurrentDir(
+      onnx_mlir::getOutputBasename(inputFilename, flagVect));
   constFilename += ".constants.bin";
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
-- 
2.43.0


From c217634c6caa4ad57d9ca89a6e784e30796513d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 039/113] fix: commands wait through signals and failing ones
 leave no traces of the parent

---
 src/Compiler/Command.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..13dfbe9 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -14,6 +14,7 @@
 #include "src/Compiler/Command.hpp"
 #include "src/Compiler/CommandUtils.hpp"
 
+#include <cerrno>
 #include <filesystem>
 #include <sstream>
 
@@ -236,7 +237,8 @@ int Command::exec(const std::string &wdir) {
     }
     errno = 0;
     execvp(path.c_str(), execArgs.data());
-    // execvp failed (in the child's environment).
+    // execvp failed (in the child's environment). Leave without the exit
+    // handlers and buffered output of the parent, which are not the child's.
     int err = errno;
     fprintf(stderr, "Failed in Command to execute '%s': errno=%d\n",
         path.c_str(), err);
@@ -249,17 +251,20 @@ int Command::exec(const std::string &wdir) {
     switch (err) {
     case ENOENT:
       // Install and/or set PATH environemnt variable.
-      exit(onnx_mlir::CommandNotFound);
+      _exit(onnx_mlir::CommandNotFound);
     case EACCES:
-      exit(onnx_mlir::CommandNotExecutable);
+      _exit(onnx_mlir::CommandNotExecutable);
     default:
-      exit(onnx_mlir::CommandExecutionFailed);
+      _exit(onnx_mlir::CommandExecutionFailed);
     }
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -270,6 +275,9 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  if (waited == -1)
+    throw CommandException("Cannot get the status of command '" + path + "'");
+
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From cbdedb3b813b25471fdfdcf234261ee52442cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 040/113] fix: input paths that cannot be examined are
 compilation errors

---
 src/Compiler/OMCompile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 5632dea..ee46011 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -600,7 +600,8 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
   if (inputFilename.empty())
     throw OMCompileException("Compilation failed: missing input model file");
 
-  if (!fs::exists(inputFilename)) {
+  std::error_code accessError;
+  if (!fs::exists(inputFilename, accessError)) {
     throw OMCompileException(
         "Compilation failed: could not locate input model file \"" +
         inputFilename + "\"");
-- 
2.43.0


From 4f785f98c125184fd626eae3804e4fd4e6bf6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 041/113] fix: host path prefix of Docker-in-Docker is compared
 by components

---
 src/Compiler/OMCompile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index ee46011..db5f8df 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -306,7 +306,10 @@ std::string ContainerSupport::resolveHostPath(
   if (hostPrefix && std::strlen(hostPrefix) > 0) {
     std::string prefix(hostPrefix);
 
-    if (pathStr.find(prefix) == 0) {
+    // Compare whole components: "/hostile" does not have the prefix "/host".
+    if (pathStr.find(prefix) == 0 &&
+        (prefix.back() == '/' || pathStr.size() == prefix.size() ||
+            pathStr[prefix.size()] == '/')) {
       if (verbose)
         std::cout << "Path already has host prefix: " << pathStr << std::endl;
       return pathStr;
-- 
2.43.0


From 037f7c230fec877cf4321c39e6e8ce7d22953f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 042/113] fix: missing container images are detected

---
 src/Compiler/OMCompile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index db5f8df..539b2f1 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -158,9 +158,12 @@ bool ContainerSupport::isImageAvailable(
     const std::string &engineName, const std::string &imageName) {
   try {
     Command imageCheck(engineName, verbose);
-    imageCheck.appendStr("images");
-    imageCheck.appendStr("-q");
+    // Unlike "images", "image inspect" fails when there is no such image.
+    imageCheck.appendStr("image");
+    imageCheck.appendStr("inspect");
     imageCheck.appendStr(imageName);
+    if (!verbose)
+      imageCheck.redirectExecStreams("/dev/null");
     return imageCheck.exec() == 0;
   } catch (...) {
     return false;
-- 
2.43.0


From 6fa217797ed78ab6879f47ffa546bc90ef35956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 043/113] fix: container compiles get flags, input and output
 name unchanged

---
 src/Compiler/CommandUtils.cpp | 23 +++++++++++++++
 src/Compiler/CommandUtils.hpp |  8 +++++
 src/Compiler/OMCompile.cpp    | 55 +++++++++++++++++++++++++----------
 src/Compiler/OMCompile.hpp    |  4 +--
 4 files changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 96b92f7..a9b78c8 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -267,4 +267,27 @@ void applyOutputPath(std::vector<std::string> &flagVect,
   flagVect.push_back(outputFilePath.string());
 }
 
+void replaceOutputDir(
+    std::vector<std::string> &flagVect, const std::string &outputDir) {
+  std::string name;
+  int i = findOptionValue(flagVect, "o", name);
+  if (i == -1 || isIgnoredOutputName(name))
+    return;
+  fs::path newPath = fs::path(outputDir) / fs::path(name).filename();
+  flagVect[i].replace(
+      flagVect[i].size() - name.size(), name.size(), newPath.string());
+}
+
+void replaceInputFilename(std::vector<std::string> &flagVect,
+    const std::string &inputFilename, const std::string &newName) {
+  for (size_t i = 0; i < flagVect.size(); ++i) {
+    if (flagVect[i] == "-o" || flagVect[i] == "--o") {
+      ++i; // Skip the name of the output.
+    } else if (flagVect[i] == inputFilename) {
+      flagVect[i] = newName;
+      return;
+    }
+  }
+}
+
 } // namespace onnx_mlir
diff --git a/src/Compiler/CommandUtils.hpp b/src/Compiler/CommandUtils.hpp
index c160896..a301427 100644
--- a/src/Compiler/CommandUtils.hpp
+++ b/src/Compiler/CommandUtils.hpp
@@ -58,6 +58,14 @@ std::string getOutputFilename(
 
 // Method that derives the proper output name for a given output base name and a
 // given compiler target (e.g. -EmitJNI).
+// Let the -o option, if there is one, name its file in outputDir.
+void replaceOutputDir(
+    std::vector<std::string> &flagVect, const std::string &outputDir);
+
+// Replace the input file given in the flags.
+void replaceInputFilename(std::vector<std::string> &flagVect,
+    const std::string &inputFilename, const std::string &newName);
+
 std::string getTargetFilename(
     const std::string &outputBasename, EmissionTargetType target);
 
diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 539b2f1..8df1c36 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -484,9 +484,26 @@ std::unique_ptr<Command> OMCompile::createLocalCompileCommand(
   return cmd;
 }
 
+// Quote an argument such that a shell takes it literally.
+static std::string quoteForShell(const std::string &arg) {
+  const char *plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                      "0123456789-_=./,:+@%";
+  if (!arg.empty() && arg.find_first_not_of(plain) == std::string::npos)
+    return arg;
+  std::string quoted = "'";
+  for (char c : arg) {
+    if (c == '\'')
+      quoted += "'\\''";
+    else
+      quoted += c;
+  }
+  return quoted + "'";
+}
+
 std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
     const std::vector<std::string> &flagVect, const std::string &inputFilename,
-    const std::string &modelDir, const std::string &outputDir) {
+    bool inputInFlags, const std::string &modelDir,
+    const std::string &outputDir) {
 
   // Container Mode: Docker/Podman run with volume mounts.
   // Note: When running in Docker-in-Docker (DinD), paths are automatically
@@ -509,22 +526,25 @@ std::unique_ptr<Command> OMCompile::createContainerCompileCommand(
   std::ostringstream cmdStream;
   cmdStream << compilerPathInContainer;
 
-  // Add flags.
-  for (const auto &flag : flagVect) {
-    // Escape any quotes in the flag.
-    std::string escapedFlag = flag;
-    size_t pos = 0;
-    while ((pos = escapedFlag.find('"', pos)) != std::string::npos) {
-      escapedFlag.insert(pos, "\\");
-      pos += 2;
-    }
-    cmdStream << " " << escapedFlag;
-  }
-
-  // Add input file (using container path - same as modelDir).
+  // Input file (using container path - same as modelDir).
   std::string containerInputPath =
       (fs::path(modelDir) / fs::path(inputFilename).filename()).string();
-  cmdStream << " " << containerInputPath;
+
+  // Relative names of the output are relative to the current directory, which
+  // the container does not have.
+  std::vector<std::string> containerFlags(flagVect);
+  onnx_mlir::replaceOutputDir(containerFlags, outputDir);
+  if (inputInFlags)
+    onnx_mlir::replaceInputFilename(
+        containerFlags, inputFilename, containerInputPath);
+  else
+    containerFlags.emplace_back(containerInputPath);
+
+  // Add flags, which the shell in the container passes on unchanged.
+  for (const auto &flag : containerFlags) {
+    if (!flag.empty())
+      cmdStream << " " << quoteForShell(flag);
+  }
 
   std::string containerCmd = cmdStream.str();
 
@@ -637,8 +657,11 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
       localCmd->appendStr(inputFilename);
     cmd = std::move(localCmd);
   } else {
+    // Symbolic links and ".." lead elsewhere inside the container.
+    modelDir = fs::weakly_canonical(modelDir).string();
+    outputDir = fs::weakly_canonical(outputDir).string();
     cmd = createContainerCompileCommand(
-        flagVect, inputFilename, modelDir, outputDir);
+        flagVect, inputFilename, modelPath.empty(), modelDir, outputDir);
   }
 
   // Redirect logs if specified (shared logic).
diff --git a/src/Compiler/OMCompile.hpp b/src/Compiler/OMCompile.hpp
index c1ae2c7..0908ab7 100644
--- a/src/Compiler/OMCompile.hpp
+++ b/src/Compiler/OMCompile.hpp
@@ -403,8 +403,8 @@ private:
 
   std::unique_ptr<Command> createContainerCompileCommand(
       const std::vector<std::string> &flagVect,
-      const std::string &inputFilename, const std::string &modelDir,
-      const std::string &outputDir);
+      const std::string &inputFilename, bool inputInFlags,
+      const std::string &modelDir, const std::string &outputDir);
 };
 
 } // namespace onnx_mlir
-- 
2.43.0


From 8e05b0c978aac4d70a23be7c13fdd2ed94e8dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 044/113] fix: values of driver options are not mistaken for
 inputs or targets

---
 src/Compiler/CommandUtils.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index a9b78c8..c4d417b 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -79,6 +79,11 @@ std::vector<std::string> parseFlags(const std::string &flags) {
   return flagVect;
 }
 
+// Options of the driver whose value can be the next flag, as in "-o model".
+static bool hasValueInNextFlag(const std::string &flag) {
+  return flag == "-o" || flag == "--o" || flag == "-tag" || flag == "--tag";
+}
+
 // Find the value of the option `name` in the flags, which the compiler accepts
 // with one or two dashes, and with its value after a '=' or in the next flag.
 // Return the index of the flag with the value, or -1 if there is none.
@@ -94,7 +99,6 @@ static int findOptionValue(const std::vector<std::string> &flagVect,
       value = option.substr(name.size() + 1);
       return i;
     }
-    bool hasValueInNextFlag = option == "o" || option == "tag";
     if (option == name) {
       if (i + 1 < num) {
         value = flagVect[i + 1];
@@ -103,7 +107,7 @@ static int findOptionValue(const std::vector<std::string> &flagVect,
       fprintf(stderr, "Parsing `%s` option, expected a value. Use default.\n",
           flag.c_str());
     }
-    if (hasValueInNextFlag)
+    if (hasValueInNextFlag(flag))
       ++i; // Do not mistake the value for an option.
   }
   return -1;
@@ -135,6 +139,10 @@ static EmissionTargetType getEmissionTargetFromFlags(
   // possible options.
   int num = flagVect.size();
   for (int i = 0; i < num; ++i) {
+    if (hasValueInNextFlag(flagVect[i])) {
+      ++i; // The value is not an emission target.
+      continue;
+    }
     if (flagVect[i].find("-Emit") == 0 || flagVect[i].find("--Emit") == 0) {
       if (flagVect[i].find("Lib") <= 6)
         return EmissionTargetType::EmitLib;
@@ -168,8 +176,8 @@ std::string getInputFilename(
     return inputFilename;
   for (size_t i = 0; i < flags.size(); ++i) {
     const std::string &arg = flags[i];
-    if (arg == "-o" || arg == "--o")
-      ++i; // Skip the name of the output.
+    if (hasValueInNextFlag(arg))
+      ++i; // The value is not the input.
     if (!arg.empty() && arg[0] == '-')
       continue;
     // Check if it ends with ".onnx, mlir, or onnxtext".
@@ -281,8 +289,8 @@ void replaceOutputDir(
 void replaceInputFilename(std::vector<std::string> &flagVect,
     const std::string &inputFilename, const std::string &newName) {
   for (size_t i = 0; i < flagVect.size(); ++i) {
-    if (flagVect[i] == "-o" || flagVect[i] == "--o") {
-      ++i; // Skip the name of the output.
+    if (hasValueInNextFlag(flagVect[i])) {
+      ++i; // The value is not the input.
     } else if (flagVect[i] == inputFilename) {
       flagVect[i] = newName;
       return;
-- 
2.43.0


From 79d79116a876deeb9eab17759819b409e621d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 045/113] fix: each expression of an operation list is read by
 itself

---
 src/Compiler/OptionUtils.cpp | 42 ++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/Compiler/OptionUtils.cpp b/src/Compiler/OptionUtils.cpp
index 19d1405..47c449d 100644
--- a/src/Compiler/OptionUtils.cpp
+++ b/src/Compiler/OptionUtils.cpp
@@ -34,6 +34,27 @@ EnableByRegexOption::EnableByRegexOption(
   setRegexString(regexString);
 }
 
+// Translate one expression of the list, independently of the others.
+static std::string getRegex(const std::string &expr) {
+  // Check if the string already contains regex patterns (like ".*")
+  // If it does, treat it as a proper regex and skip the simple transformations
+  bool hasRegexPattern = expr.find(".*") != std::string::npos ||
+                         expr.find("\\.") != std::string::npos ||
+                         expr.find("^") != std::string::npos ||
+                         expr.find("$") != std::string::npos ||
+                         expr.find("[") != std::string::npos ||
+                         expr.find("+") != std::string::npos ||
+                         expr.find("?") != std::string::npos;
+  if (hasRegexPattern)
+    return expr;
+  // The '.' character in regex string is recognized as normal character, not
+  // regular expression.
+  std::string regexString =
+      std::regex_replace(expr, std::regex("\\."), "\\.");
+  // The '*' character in regex string is recognized as '.*' pattern.
+  return std::regex_replace(regexString, std::regex("\\*"), ".*");
+}
+
 void EnableByRegexOption::setRegexString(std::string regexString) {
   assert(nameCache.empty() && "can set regex string only before any queries");
   allEnabled = allDisabled = false;
@@ -58,28 +79,13 @@ void EnableByRegexOption::setRegexString(std::string regexString) {
   // Separate multiple expressions with space.
   regexString = std::regex_replace(regexString, std::regex(","), " ");
 
-  // Check if the string already contains regex patterns (like ".*")
-  // If it does, treat it as a proper regex and skip the simple transformations
-  bool hasRegexPattern = regexString.find(".*") != std::string::npos ||
-                         regexString.find("\\.") != std::string::npos ||
-                         regexString.find("^") != std::string::npos ||
-                         regexString.find("$") != std::string::npos ||
-                         regexString.find("[") != std::string::npos ||
-                         regexString.find("+") != std::string::npos ||
-                         regexString.find("?") != std::string::npos;
-
-  if (!hasRegexPattern) {
-    // The '.' character in regex string is recognized as normal character, not
-    // regular expression.
-    regexString = std::regex_replace(regexString, std::regex("\\."), "\\.");
-    // The '*' character in regex string is recognized as '.*' pattern.
-    regexString = std::regex_replace(regexString, std::regex("\\*"), ".*");
-  }
   std::stringstream ss(regexString);
   std::istream_iterator<std::string> begin(ss);
   std::istream_iterator<std::string> end;
   // Create the set of regex defined by the original regexString.
-  regexOfAllowedNames = std::set<std::string>(begin, end);
+  regexOfAllowedNames.clear();
+  for (auto it = begin; it != end; ++it)
+    regexOfAllowedNames.insert(getRegex(*it));
 }
 
 bool EnableByRegexOption::isEnabled(const std::string &name) {
-- 
2.43.0


From 09d215e5fdac57ec79352129f3826510930a0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 046/113] fix: DisposableElementsAttr::readArray compiles

---
 src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
index ae8a350..308f52d 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
+++ b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp.inc
@@ -87,5 +87,5 @@ inline onnx_mlir::ArrayBuffer<X> DisposableElementsAttr::getArray() const {
 template <typename X>
 inline void DisposableElementsAttr::readArray(MutableArrayRef<X> dst) const {
   assert(onnx_mlir::toBType<X> == getBType() && "X must match element type");
-  readRawBytes(onnx_mlir::castArrayRef<X>(dst));
+  readRawBytes(onnx_mlir::castMutableArrayRef<char>(dst));
 }
-- 
2.43.0


From a5978bf8806c4987befed2ae5273dd33655e2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 047/113] fix: uint16 constants can be iterated as uint16_t

---
 src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
index cabfe58..3200d39 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
+++ b/src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp
@@ -191,7 +191,7 @@ public:
   // because of strides and the possibility that bufferBType != btype.
   using NonContiguousIterableTypesT =
       std::tuple<Attribute, IntegerAttr, FloatAttr, APInt, APFloat, WideNum,
-          bool, int8_t, uint8_t, int16_t, int8_t, int32_t, uint32_t, int64_t,
+          bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t,
           uint64_t, onnx_mlir::float_16, onnx_mlir::bfloat_16, float, double>;
 
   // An underlying iota_range sequence iterator returns size_t flat indices
-- 
2.43.0


From a9560bec1a2b608501101e94a54d778fd7d8c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 048/113] fix: ScatterND of constants accepts negative indices

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index ffbd8a2..bc2f2a8 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -822,9 +822,12 @@ ElementsAttr ElementsAttrBuilder::scatterND(
     auto updatesIter = updatesRange.begin();
     ArrayBuffer<int64_t> indicesBuffer = getElementsArray<int64_t>(indices);
     const int64_t *indicesIter = indicesBuffer.get().begin();
+    SmallVector<uint64_t, 4> idxs(indices_nd);
     for (int64_t i = 0; i < n_slices; ++i) {
-      ArrayRef<uint64_t> idxs =
-          castArrayRef<uint64_t>(ArrayRef(indicesIter, indices_nd));
+      // Negative indices count back from the end of their axis.
+      for (int64_t k = 0; k < indices_nd; ++k)
+        idxs[k] = indicesIter[k] < 0 ? indicesIter[k] + inputShape[k]
+                                     : indicesIter[k];
       int64_t pos = getStridesPosition(idxs, sliceStrides);
       for (int64_t j = 0; j < slice_size; ++j) {
         dst[pos] = updatesData.get()[updatesIter->at(0)];
-- 
2.43.0


From 275ad3486975797bf5dee705820fd7182e7128c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 049/113] fix: true in a dense bool constant widens to 1

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
index ded0661..c7912e8 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp
@@ -29,7 +29,8 @@ WideNum getElementsSplatWideNum(ElementsAttr elms) {
   if (isa<FloatType>(elementType))
     return WideNum::fromAPFloat(elms.getSplatValue<APFloat>());
   if (auto itype = dyn_cast<IntegerType>(elementType))
-    return WideNum::fromAPInt(elms.getSplatValue<APInt>(), !itype.isUnsigned());
+    return WideNum::fromAPInt(elms.getSplatValue<APInt>(),
+        isSignedIntBType(btypeOfMlirType(itype)));
   llvm_unreachable("WideNum only supports integer and float types");
 }
 
@@ -44,7 +45,7 @@ void readDenseElementsWideNums(
     llvm::transform(elms.getValues<APFloat>(), dst.begin(),
         [](APFloat f) { return WideNum::fromAPFloat(f); });
   } else if (auto itype = dyn_cast<IntegerType>(elementType)) {
-    bool isSigned = !itype.isUnsigned();
+    bool isSigned = isSignedIntBType(btypeOfMlirType(itype));
     llvm::transform(elms.getValues<APInt>(), dst.begin(),
         [isSigned](APInt i) { return WideNum::fromAPInt(i, isSigned); });
   } else {
-- 
2.43.0


From 9f73153f90ba028b1bfc1f10498009550ac6d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 050/113] fix: split of constants along an empty axis does not
 divide by zero

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index bc2f2a8..e138ee7 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -583,7 +583,7 @@ std::vector<ElementsAttr> ElementsAttrBuilder::split(
 
   ArrayBuffer<WideNum> data = getElementsWideNums(elms);
   size_t stride = ShapedType::getNumElements(shape.drop_front(axis));
-  size_t substride = stride / axisSize;
+  size_t substride = ShapedType::getNumElements(shape.drop_front(axis + 1));
   size_t offset = 0;
   SmallVector<int64_t, 4> splitShape(shape.begin(), shape.end());
   splitShape[axis] = 0; // Is set in every iteration.
-- 
2.43.0


From 2605d150125eadbed233226c517caa650eebbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 051/113] fix: NonZero of a scalar constant does not divide by
 zero

---
 .../ONNX/ElementsAttr/ElementsAttrBuilder.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index e138ee7..6b5d189 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -1095,25 +1095,27 @@ namespace {
 // TODO: If this is too slow then reimplement in the style of allEqual()
 //       with WideNum instead of APFloat/APInt.
 template <typename AP_TYPE>
-SmallVector<int64_t> nonZeroIndices(ElementsAttr elms) {
+SmallVector<int64_t> nonZeroIndices(ElementsAttr elms, int64_t &count) {
   SmallVector<int64_t> indices;
+  count = 0;
   auto values = elms.getValues<AP_TYPE>();
   for (const auto &idxpos :
       StridesRange<0>(elms.getShapedType().getShape(), {})) {
-    if (!values[idxpos.flattenedIndex].isZero())
+    if (!values[idxpos.flattenedIndex].isZero()) {
       indices.append(idxpos.index.begin(), idxpos.index.end());
+      ++count;
+    }
   }
   return indices;
 }
 } // namespace
 
 ElementsAttr ElementsAttrBuilder::nonZero(ElementsAttr elms) {
+  int64_t count;
   SmallVector<int64_t> indices = isa<FloatType>(elms.getElementType())
-                                     ? nonZeroIndices<APFloat>(elms)
-                                     : nonZeroIndices<APInt>(elms);
+                                     ? nonZeroIndices<APFloat>(elms, count)
+                                     : nonZeroIndices<APInt>(elms, count);
   int64_t rank = elms.getShapedType().getRank();
-  assert(indices.size() % rank == 0);
-  int64_t count = indices.size() / rank;
   Type I64 = IntegerType::get(elms.getContext(), 64);
   // Return transposition from shape [count, rank] to [rank, count].
   auto nonZeroType = RankedTensorType::get({rank, count}, I64);
-- 
2.43.0


From d644624e701824d0c2f4fbc9b15a00e26bfcedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 052/113] fix: empty constants in any layout can be reshaped

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 6b5d189..fbb2c12 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -514,9 +514,14 @@ ElementsAttr ElementsAttrBuilder::reshape(
   if (reshapedShape == shape)
     return elms;
 
+  ShapedType reshapedType = type.clone(reshapedShape);
+  // There is nothing to reuse in an empty tensor and its strides say nothing
+  // about the size of its buffer.
+  if (elms.empty())
+    return fromWideNums(reshapedType, [](MutableArrayRef<WideNum>) {});
+
   ElementsProperties props = getElementsProperties(elms);
 
-  ShapedType reshapedType = type.clone(reshapedShape);
   if (auto reshapedStrides =
           reshapeStrides(shape, props.strides, reshapedShape))
     return create(reshapedType, props.bufferBType, *reshapedStrides,
-- 
2.43.0


From 873666523afe835fd9ec1d8d9a34c7b6f84a6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 053/113] fix: elements of small float splats can be read as
 arrays

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
index 3d86b02..953b9c1 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp.inc
@@ -9,8 +9,8 @@ ArrayBuffer<X> getElementsArray(mlir::ElementsAttr elms) {
   if (auto disposable = mlir::dyn_cast<mlir::DisposableElementsAttr>(elms))
     return disposable.getArray<X>();
   if (elms.isSplat())
-    return
-        typename ArrayBuffer<X>::Vector(elms.size(), elms.getSplatValue<X>());
+    return typename ArrayBuffer<X>::Vector(
+        elms.size(), getElementsSplatWideNum(elms).narrow<toBType<X>>());
   if (!elms.getElementType().isInteger(1)) {
     if (auto dense = mlir::dyn_cast<mlir::DenseElementsAttr>(elms)) {
       llvm::ArrayRef<X> data = castArrayRef<X>(dense.getRawData());
@@ -29,7 +29,8 @@ void readElementsArray(mlir::ElementsAttr elms, llvm::MutableArrayRef<X> dst) {
     return disposable.readArray<X>(dst);
   if (elms.isSplat()) {
     assert(dst.size() == static_cast<size_t>(elms.size()));
-    return std::fill(dst.begin(), dst.end(), elms.getSplatValue<X>());
+    return std::fill(dst.begin(), dst.end(),
+        getElementsSplatWideNum(elms).narrow<toBType<X>>());
   }
   if (!elms.getElementType().isInteger(1)) {
     if (auto dense = mlir::dyn_cast<mlir::DenseElementsAttr>(elms)) {
-- 
2.43.0


From 050a78df600bead63e4ab66df9970c99b6a9c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 054/113] fix: bool constants can be cast to signed integers

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index fbb2c12..4da56ac 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -404,11 +404,12 @@ ElementsAttr ElementsAttrBuilder::castToIntElementType(
     //
     // TODO: Add configuration options to support other behaviors.
     //       See https://github.com/onnx/onnx-mlir/issues/2209
-    if (newElementType.isUnsigned() != oldElementType.isUnsignedInteger()) {
+    BType newWideBType = wideBTypeOfBType(btypeOfMlirType(newElementType));
+    if (newWideBType != wideBTypeOfBType(btypeOfMlirType(oldElementType))) {
       // DisposableElementsAttr requires transformation between integers with
-      // different signs.
+      // different wide types (bool widens to an unsigned integer).
       // TODO: Consider relaxing the requirement and omit this transformation.
-      transformer = newElementType.isUnsigned()
+      transformer = newWideBType == BType::UINT64
                         ? functionTransformer(wideCast<uint64_t, int64_t>)
                         : functionTransformer(wideCast<int64_t, uint64_t>);
     } else {
-- 
2.43.0


From 69c04e616030e2542a269b8267c6e2213956d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 055/113] fix: every element of an empty constant equals any
 value

---
 src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
index 4da56ac..faeb720 100644
--- a/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp
@@ -140,6 +140,8 @@ bool ElementsAttrBuilder::equal(ElementsAttr lhs, ElementsAttr rhs) {
 /*static*/
 bool ElementsAttrBuilder::allEqual(
     ElementsAttr lhs, WideNum broadcastedRhsValue) {
+  if (lhs.empty())
+    return true; // No element differs, whatever the underlying buffer holds.
   WideNum n = broadcastedRhsValue;
   return dispatchByBType(
       btypeOfMlirType(lhs.getElementType()), [lhs, n](auto btype) {
-- 
2.43.0


From 202303a4b97eea2ea8d67699ce66e0addf7c98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 056/113] fix: out of range integer constants are truncated
 wherever they are read

---
 src/Dialect/ONNX/ElementsAttr/WideNum.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
index 7b11568..fd89570 100644
--- a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
@@ -43,11 +43,11 @@ APFloat WideNum::toAPFloat(BType tag) const {
 
 APInt WideNum::toAPInt(BType tag) const {
   unsigned bitwidth = bitwidthOfBType(tag);
-  if (isSignedIntBType(tag))
-    // Actually, isSigned flag is ignored because bitwidth <= 64.
-    return APInt(bitwidth, i64, /*isSigned=*/true);
-  if (isUnsignedIntBType(tag))
-    return APInt(bitwidth, u64);
+  // Like narrow(), truncates numbers beyond the range of the type.
+  if (tag == BType::BOOL)
+    return APInt(bitwidth, u64 != 0);
+  if (isSignedIntBType(tag) || isUnsignedIntBType(tag))
+    return APInt(/*numBits=*/64, u64).zextOrTrunc(bitwidth);
   llvm_unreachable("BType must be an integer");
 }
 
-- 
2.43.0


From 3c077c82cbf4fdd993642bb112690f76a303b72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:59 +0000
Subject: [PATCH 057/113] fix: constants in every listed attribute of an op are
 collected and scrubbed

---
 .../ONNX/ElementsAttr/DisposablePool.cpp       | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp b/src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp
index bdc654f..cecd338 100644
--- a/src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp
@@ -44,14 +44,16 @@ namespace {
 template <typename Action>
 void walkOpsAttrs(ModuleOp moduleOp, DisposablePool::OpAttrDictionary opsAttrs,
     const Action &act) {
-  llvm::SmallDenseMap<StringRef, StringRef> opAttrMap(
-      opsAttrs.begin(), opsAttrs.end());
-  moduleOp.walk([&opAttrMap, &act](Operation *op) {
-    auto opAttr = opAttrMap.find(op->getName().getIdentifier());
-    if (opAttr != opAttrMap.end()) {
-      StringRef attrName = opAttr->second;
-      if (auto attr = op->getAttrOfType<DisposableElementsAttr>(attrName))
-        act(op, attrName, attr);
+  // An op can be listed with several attributes.
+  llvm::SmallDenseMap<StringRef, llvm::SmallVector<StringRef, 1>> opAttrsMap;
+  for (auto [opName, attrName] : opsAttrs)
+    opAttrsMap[opName].push_back(attrName);
+  moduleOp.walk([&opAttrsMap, &act](Operation *op) {
+    auto opAttrs = opAttrsMap.find(op->getName().getIdentifier());
+    if (opAttrs != opAttrsMap.end()) {
+      for (StringRef attrName : opAttrs->second)
+        if (auto attr = op->getAttrOfType<DisposableElementsAttr>(attrName))
+          act(op, attrName, attr);
     }
   });
 }
-- 
2.43.0


From 12984631ac22483fad079e2edd19bb58eb0c4a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 058/113] fix: numbers of FLOAT8E5M2FNUZ, UINT4 and INT4 are
 ONNX's in the runtime

The runtime's table of element types skipped FLOAT8E5M2FNUZ (20), so that
UINT4 and INT4 had the numbers of FLOAT8E5M2FNUZ and UINT4 in the ONNX
standard, the compiler and the Java binding.
---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..be4e24f 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -38,10 +38,11 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_BFLOAT16,       16, 2,                "bfloat16",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FN,   17, 1,                "FLOAT8E4M3FN",    "f8e4m3fn",   "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FNUZ, 18, 1,                "FLOAT8E4M3FNUZ",  "f8e4m3fnuz", "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2,     19, 1,                "FLOAT8E5M2",      "f8e5m2",     "")           /* No C/C++ name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          20, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           21, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2FNUZ, 20, 1,                "FLOAT8E5M2FNUZ",  "f8e5m2fnuz", "")           /* No C/C++ name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          21, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           22, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
 
-OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           21, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           22, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
 // clang-format on
 #else
 #error "Must define OM_TYPE_METADATA_DEF macro."
-- 
2.43.0


From 5b296c7780c3127e83b36a9d67d137957f8bb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 059/113] fix: option values are not mistaken for the model
 when looking for omconfig.json

---
 src/Compiler/CompilerOptions.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 7a8d315..9ee9144 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1612,6 +1612,16 @@ bool hasSignatureInstrumentation(InstrumentStages targetInstrumentationStage) {
          (instrumentOnnxNode != "" && instrumentOnnxNode != "NONE");
 }
 
+// Whether the value of the option given in `arg` is in the next argument.
+static bool hasValueInNextArg(const std::string &arg) {
+  if (arg.size() < 2 || arg[0] != '-')
+    return false;
+  auto &optMap = llvm::cl::getRegisteredOptions();
+  auto opt = optMap.find(arg.substr(arg[1] == '-' ? 2 : 1));
+  return opt != optMap.end() &&
+         opt->second->getValueExpectedFlag() == llvm::cl::ValueRequired;
+}
+
 // Load options from a file given by --config-file.
 // If --config-file is not used, looking for omconfig.json in the same folder
 // as the input file.
@@ -1621,6 +1631,10 @@ bool loadCompileOptionsFromConfig(
   std::string inputFileVar = "";
   for (int i = 1; i < argc; ++i) {
     std::string arg(argv[i]);
+    if (hasValueInNextArg(arg)) {
+      ++i; // The value is not the input file name.
+      continue;
+    }
     if (arg.size() > 1 && arg[0] == '-')
       continue;
     // First positional argument becomes the input file name.
-- 
2.43.0


From 366eccabfa342e6de5a8bc296fe71fa21d761aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 060/113] fix: --customEnvFlags accepts its value in the next
 argument and rejects an empty one

---
 src/Compiler/CompilerOptions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index 9ee9144..e5b648b 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -983,14 +983,22 @@ bool parseCustomEnvFlagsCommandLineOption(
   // Customized version? -customEnvFlags=val and save its value.
   for (int i = 1; i < argc; ++i) {
     std::string arg(argv[i]);
-    if (arg.find("--customEnvFlags") == 0) {
+    if (arg.find("--customEnvFlags=") == 0) {
       envVar = arg.substr(sizeof("--customEnvFlags"));
-    } else if (arg.find("-customEnvFlags") == 0) {
+    } else if (arg.find("-customEnvFlags=") == 0) {
       envVar = arg.substr(sizeof("-customEnvFlags"));
+    } else if ((arg == "--customEnvFlags" || arg == "-customEnvFlags") &&
+               i + 1 < argc) {
+      envVar = argv[++i];
     } else if (arg.compare("-v") == 0) {
       verbose = true;
     }
   }
+  if (envVar.empty()) {
+    if (errs)
+      *errs << "\nError: --customEnvFlags expects the name of a variable\n\n";
+    return false;
+  }
   // Check that the env var does not recursively hold another -customEnvFlags.
   const char *envValCstr;
   if ((envValCstr = std::getenv(envVar.c_str()))) {
-- 
2.43.0


From a2d48c6dea88fea5d8d99c2366c33cd52e6eccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 061/113] fix: a given configuration file that is not found is
 always reported

---
 src/Compiler/CompilerOptions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index e5b648b..b79eb59 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1679,8 +1679,9 @@ bool loadCompileOptionsFromConfig(
       inputPath.parent_path() / "omconfig.json";
   std::string configPath =
       configFileVar.empty() ? defaultConfigPath.string() : configFileVar;
-  if (!std::filesystem::exists(configPath)) {
-    if (verbose && !configFileVar.empty()) {
+  std::error_code ec; // Paths that cannot be examined are not found.
+  if (!std::filesystem::exists(configPath, ec)) {
+    if (!configFileVar.empty()) {
       // Only warn if user explicitly specified a config file.
       llvm::errs() << "Warning: Config file not found: " << configPath << "\n";
     }
-- 
2.43.0


From 2a60713ed2220749f73870f64e75c910187524c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 062/113] fix: errors while writing a configuration file are
 reported, not fatal

---
 src/Compiler/JsonConfigObject.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Compiler/JsonConfigObject.cpp b/src/Compiler/JsonConfigObject.cpp
index 3700a79..ed4e76e 100644
--- a/src/Compiler/JsonConfigObject.cpp
+++ b/src/Compiler/JsonConfigObject.cpp
@@ -101,6 +101,15 @@ bool JsonConfigObject::storeToFile(
   jsonOS.value(llvm::json::Value(llvm::json::Object(*jsonObject)));
   outFile << "\n";
 
+  // Report what could not be written (e.g. when the device is full).
+  outFile.close();
+  if (outFile.has_error()) {
+    llvm::errs() << "Error: Could not write file: " << filePath << ": "
+                 << outFile.error().message() << "\n";
+    outFile.clear_error();
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 154a70ba75db1290302dbbc9748270212eff8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 063/113] fix: optimization levels that are not numbers are
 invalid options

---
 src/Compiler/CompilerOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/CompilerOptions.cpp b/src/Compiler/CompilerOptions.cpp
index b79eb59..c0507f7 100644
--- a/src/Compiler/CompilerOptions.cpp
+++ b/src/Compiler/CompilerOptions.cpp
@@ -1303,8 +1303,8 @@ int setCompilerOption(const OptionKind kind, const std::string &val) {
       return InvalidCompilerOption;
     break;
   case OptionKind::CompilerOptLevel: {
-    int level = atoi(val.c_str());
-    if (level < 0 || level > 3)
+    int level;
+    if (llvm::StringRef(val).getAsInteger(10, level) || level < 0 || level > 3)
       return InvalidCompilerOption;
     setOptLevel((OptLevel)level);
   } break;
-- 
2.43.0


From 02aa496c329ac6c603965579c352a9abc68c9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 064/113] fix: binary-decoder prints 8-bit integers as numbers
 and decodes INT8

---
 src/Tools/binary-decoder/BinaryDecoder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tools/binary-decoder/BinaryDecoder.cpp b/src/Tools/binary-decoder/BinaryDecoder.cpp
index 8fc6e1d..0a29d80 100644
--- a/src/Tools/binary-decoder/BinaryDecoder.cpp
+++ b/src/Tools/binary-decoder/BinaryDecoder.cpp
@@ -65,8 +65,10 @@ template <typename T>
 int printBuffer(std::vector<char> buffer) {
   auto *ptr = reinterpret_cast<T *>(&buffer[0]);
   auto data = std::vector<T>(ptr, ptr + buffer.size() / sizeof(T));
+  // Print 8-bit integers as numbers, not as characters.
+  using PrintType = std::conditional_t<sizeof(T) == 1, int, T>;
   for (const auto &elem : data)
-    std::cout << elem << " ";
+    std::cout << static_cast<PrintType>(elem) << " ";
   std::cout << std::endl;
   return 0;
 }
@@ -103,6 +105,7 @@ int main(int argc, char **argv) {
 
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::BOOL, bool);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT8, u_int8_t);
+  PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT8, int8_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT16, u_int16_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT16, int16_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::INT32, int32_t);
-- 
2.43.0


From f0f0ac5b1ac395190561db46f675c026f117872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:11 +0000
Subject: [PATCH 065/113] fix: binary-decoder reports what it cannot decode and
 then keeps the file

---
 src/Tools/binary-decoder/BinaryDecoder.cpp | 48 +++++++++++++++-------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/Tools/binary-decoder/BinaryDecoder.cpp b/src/Tools/binary-decoder/BinaryDecoder.cpp
index 0a29d80..468fc88 100644
--- a/src/Tools/binary-decoder/BinaryDecoder.cpp
+++ b/src/Tools/binary-decoder/BinaryDecoder.cpp
@@ -63,7 +63,7 @@ llvm::cl::opt<onnx::TensorProto::DataType> DataType(
 
 template <typename T>
 int printBuffer(std::vector<char> buffer) {
-  auto *ptr = reinterpret_cast<T *>(&buffer[0]);
+  auto *ptr = reinterpret_cast<T *>(buffer.data());
   auto data = std::vector<T>(ptr, ptr + buffer.size() / sizeof(T));
   // Print 8-bit integers as numbers, not as characters.
   using PrintType = std::conditional_t<sizeof(T) == 1, int, T>;
@@ -86,19 +86,7 @@ int printBuffer<bool>(std::vector<char> buffer) {
   return 0;
 }
 
-int main(int argc, char **argv) {
-  llvm::cl::ParseCommandLineOptions(argc, argv);
-  std::vector<char> buffer(Size);
-  std::ifstream file(Filename, std::ios::in | std::ios::binary);
-  if (!file)
-    return -1;
-  file.seekg(Start, file.beg);
-  file.read(&buffer[0], Size);
-  file.close();
-
-  if (Remove)
-    llvm::sys::fs::remove(Filename);
-
+int decode(const std::vector<char> &buffer) {
 #define PRINT_BUFFER_FOR_TYPE(ONNX_TYPE, CPP_TYPE)                             \
   if (DataType == (ONNX_TYPE))                                                 \
     return printBuffer<CPP_TYPE>(buffer);
@@ -115,4 +103,36 @@ int main(int argc, char **argv) {
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::DOUBLE, double);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT32, u_int32_t);
   PRINT_BUFFER_FOR_TYPE(onnx::TensorProto::UINT64, u_int64_t);
+
+  std::cerr << "Decoding of this data type is not supported" << std::endl;
+  return 1;
+}
+
+int main(int argc, char **argv) {
+  llvm::cl::ParseCommandLineOptions(argc, argv);
+  std::ifstream file(Filename, std::ios::in | std::ios::binary);
+  if (!file || llvm::sys::fs::is_directory(Filename)) {
+    std::cerr << "Cannot open " << Filename << std::endl;
+    return -1;
+  }
+  // The range to decode must lie within the file.
+  file.seekg(0, file.end);
+  int64_t fileSize = file.tellg();
+  if (Start < 0 || Size < 0 || Start > fileSize || Size > fileSize - Start) {
+    std::cerr << "Cannot decode " << Size << " bytes from byte " << Start
+              << " of " << Filename << std::endl;
+    return 1;
+  }
+  std::vector<char> buffer(Size);
+  file.seekg(Start, file.beg);
+  if (!file.read(buffer.data(), Size)) {
+    std::cerr << "Cannot read " << Filename << std::endl;
+    return 1;
+  }
+  file.close();
+
+  int rc = decode(buffer);
+  if (rc == 0 && Remove)
+    llvm::sys::fs::remove(Filename);
+  return rc;
 }
-- 
2.43.0


From 596b4b1d9b703d8de75e6afc2a08f3e650a1a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:07 +0000
Subject: [PATCH 066/113] fix: JNI log text of a tensor without elements is
 empty, not stale memory

---
 src/Runtime/jni/jnilog.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/jni/jnilog.h b/src/Runtime/jni/jnilog.h
index 1b16a18..18032c1 100644
--- a/src/Runtime/jni/jnilog.h
+++ b/src/Runtime/jni/jnilog.h
@@ -31,6 +31,7 @@ enum { LOG_TRACE, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERROR, LOG_FATAL };
 #define LOG_BUF_C_TYPE(type, format, buf, data, n)                             \
   do {                                                                         \
     char *__p = (buf);                                                         \
+    *__p = '\0'; /* there may be no element to print */                        \
     /* Reserve 5 char at the end for " ... \0". Note the first                 \
      * space will come from the '\0' of the previous string.                   \
      */                                                                        \
-- 
2.43.0


From d52581d56c817b2919d2de6bc08e81c2d3ea7a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:07 +0000
Subject: [PATCH 067/113] fix: JNI log falls back to stderr when its file
 cannot be opened

---
 src/Runtime/jni/jnilog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Runtime/jni/jnilog.c b/src/Runtime/jni/jnilog.c
index 34e4d9d..db30024 100644
--- a/src/Runtime/jni/jnilog.c
+++ b/src/Runtime/jni/jnilog.c
@@ -250,7 +250,6 @@ static FILE *get_log_file_by_name(char *name) {
           tname, strlen(name) + 32, "%s.%016lx", name, *(unsigned long *)&tid);
       assert(num_chars_written >= 0); // Error: "snprintf write error to tname".
       fp = fopen(tname, "w");
-      assert(fp != NULL); // Error: "fopen error on tname".
       free(tname);
     }
   }
-- 
2.43.0


From 00c463acd3f4cb8c84150c041d4a36f951e6d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 068/113] fix: JNI accepts output tensors without elements

---
 src/Runtime/jni/jniwrapper.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 1c8c438..17d6d2e 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -575,7 +575,7 @@ jobject omtl_native_to_java(
         omTensorGetDataType(jni_omts[i]), jni_dataType != ONNX_TYPE_UNDEFINED,
         env, japi->jecpt_cls, "omt[%d]:dataType=%d", i, jni_dataType);
     LIB_TYPE_VAR_CALL(int64_t, jni_bufferSize,
-        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize > 0, env,
+        omTensorGetBufferSize(jni_omts[i]), jni_bufferSize >= 0, env,
         japi->jecpt_cls, "omt[%ld]:bufferSize=%ld", i, jni_bufferSize);
     LIB_TYPE_VAR_CALL(int64_t, jni_rank, omTensorGetRank(jni_omts[i]),
         jni_rank >= 0, env, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jni_rank);
@@ -583,7 +583,7 @@ jobject omtl_native_to_java(
         jni_owning == 0 || jni_owning == 1, env, japi->jecpt_cls,
         "omt[%d]:owning=ld", i, jni_owning);
     LIB_TYPE_VAR_CALL(int64_t, jni_numElems, omTensorGetNumElems(jni_omts[i]),
-        jni_numElems > 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
+        jni_numElems >= 0, env, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
         jni_numElems);
 
     /* Print debug info on what we got from the native side */
-- 
2.43.0


From 19cefc4aafc8c674ce5d0c34c7500f0802b2fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 069/113] fix: JNI queries throw for null arguments and what
 the model does not know

---
 src/Runtime/jni/jniwrapper.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index 17d6d2e..bfa6ea3 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -475,6 +475,9 @@ OMTensorList *omtl_java_to_native(
      * the data buffer will not be freed. Java GC is responsible for
      * freeing the data buffer when it garbage collects the ByteBuffer
      * in the OMTensor.
+  LIB_CALL(, java_omtl != NULL, env, japi->jecpt_cls, "java_omtl=%p",
+      java_omtl);
+
      */
     LIB_VAR_CALL(jni_omts[i],
         omTensorCreate(jni_data, (int64_t *)jni_shape, jni_rank, jni_dataType),
@@ -813,11 +816,12 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
 
   /* Entry point name in hex and string format for debugging */
   HEX_DEBUG("ep", epptr, strlen(epptr));
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model input signature API */
-  CHECK_CALL(const char *, jni_isig, omInputSignature(epptr), jni_isig != NULL,
-      "jni_isig=%p", jni_isig);
+  const char *jni_isig = omInputSignature(epptr);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
@@ -841,6 +845,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
 
   /* Convert to Java String object */
   JNI_TYPE_VAR_CALL(env, jstring, java_isig, (*env)->NewStringUTF(env, sigptr),
+  /* There is no signature for an unknown entry point */
+  LIB_CALL(, jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
+
       java_isig != NULL, jecpt_cls, "java_isig=%p", java_isig);
 
   /* On z/OS, free the ASCII input signature no longer needed */
@@ -875,11 +882,12 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
 
   /* Entry point name in hex and string format for debugging */
   HEX_DEBUG("ep", epptr, strlen(epptr));
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model output signature API */
-  CHECK_CALL(const char *, jni_osig, omOutputSignature(epptr), jni_osig != NULL,
-      "jni_osig=%p", jni_osig);
+  const char *jni_osig = omOutputSignature(epptr);
 
   /* On z/OS, free the EBCDIC entry point name no longer needed */
 #ifdef __MVS__
@@ -903,6 +911,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
 
   /* Convert to Java String object */
   JNI_TYPE_VAR_CALL(env, jstring, java_osig, (*env)->NewStringUTF(env, sigptr),
+  /* There is no signature for an unknown entry point */
+  LIB_CALL(, jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
+
       java_osig != NULL, jecpt_cls, "java_osig=%p", java_osig);
 
   /* On z/OS, free the ASCII output signature no longer needed */
@@ -924,8 +935,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
   /* Call model compilation info API */
-  CHECK_CALL(const char *, jni_cinfo, omCompilationInfo(), jni_cinfo != NULL,
-      "jni_cinfo=%p", jni_cinfo);
+  LIB_TYPE_VAR_CALL(const char *, jni_cinfo, omCompilationInfo(),
+      jni_cinfo != NULL, env, jecpt_cls, "jni_cinfo=%p", jni_cinfo);
 
   /* Compilation info in hex and string format for debugging */
   HEX_DEBUG("cinfo", jni_cinfo, strlen(jni_cinfo));
-- 
2.43.0


From 433911761b7f7ff7f1f3aca97682e2fac36fdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 070/113] fix: JNI releases native memory and arrays, and
 throws, when a call fails

---
 src/Runtime/jni/jniwrapper.c | 240 ++++++++++++++++++-----------------
 1 file changed, 127 insertions(+), 113 deletions(-)

diff --git a/src/Runtime/jni/jniwrapper.c b/src/Runtime/jni/jniwrapper.c
index bfa6ea3..9430dea 100644
--- a/src/Runtime/jni/jniwrapper.c
+++ b/src/Runtime/jni/jniwrapper.c
@@ -346,6 +346,99 @@ jniapi_t *fill_jniapi(JNIEnv *env, jniapi_t *japi) {
   return japi;
 }
 
+/* Convert one OMTensor Java object to a native OMTensor struct. On failure
+ * nothing acquired here is kept, a Java exception is thrown, and NULL is
+ * returned.
+ */
+static OMTensor *omt_java_to_native(
+    JNIEnv *env, int i, jobject jobj_omt, jniapi_t *japi) {
+
+  /* Get data, shape, strides, dataType, rank, and bufferSize by calling
+   * corresponding methods
+   */
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_data,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getData),
+      jomt_data != NULL, japi->jecpt_cls, "omt[%d]:data=%p", i, jomt_data);
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_shape,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getShape),
+      jomt_shape != NULL, japi->jecpt_cls, "omt[%d]:shape=%p", i, jomt_shape);
+  JNI_TYPE_VAR_CALL(env, jobject, jomt_strides,
+      (*env)->CallObjectMethod(env, jobj_omt, japi->jomt_getStrides),
+      jomt_strides != NULL, japi->jecpt_cls, "omt[%d]:strides=%p", i,
+      jomt_strides);
+  JNI_TYPE_VAR_CALL(env, jint, jomt_dataType,
+      (*env)->CallIntMethod(env, jobj_omt, japi->jomt_getDataType),
+      jomt_dataType != ONNX_TYPE_UNDEFINED, japi->jecpt_cls,
+      "omt[%d]:dataType=%d", i, jomt_dataType);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_bufferSize,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getBufferSize),
+      jomt_bufferSize >= 0, japi->jecpt_cls, "omt[%d]:bufferSize=%ld", i,
+      jomt_bufferSize);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_rank,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getRank),
+      jomt_rank >= 0, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jomt_rank);
+  JNI_TYPE_VAR_CALL(env, jlong, jomt_numElems,
+      (*env)->CallLongMethod(env, jobj_omt, japi->jomt_getNumElems),
+      jomt_numElems >= 0, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
+      jomt_numElems);
+
+  /* Get direct buffer associated with data */
+  JNI_TYPE_VAR_CALL(env, void *, jni_data,
+      (*env)->GetDirectBufferAddress(env, jomt_data), jni_data != NULL,
+      japi->jecpt_cls, "omt[%d]:jni_data=%p", i, jni_data);
+
+  /* Get long array associated with data shape and strides */
+  JNI_TYPE_VAR_CALL(env, jlong *, jni_shape,
+      (*env)->GetLongArrayElements(env, jomt_shape, NULL), jni_shape != NULL,
+      japi->jecpt_cls, "omt[%d]:jni_shape=%p", i, jni_shape);
+  jlong *jni_strides = (*env)->GetLongArrayElements(env, jomt_strides, NULL);
+
+  /* Primitive type int and long can be directly used */
+  int jni_dataType = jomt_dataType;
+  int64_t jni_bufferSize = jomt_bufferSize;
+  int64_t jni_rank = jomt_rank;
+  int64_t jni_numElems = jomt_numElems;
+
+  OMTensor *jni_omt = NULL;
+  if (jni_strides != NULL) {
+    /* Print debug info on what we got from the Java side */
+    OMT_DEBUG(i, jni_numElems, jni_data, jni_shape, jni_strides, jni_dataType,
+        jni_bufferSize, jni_rank, 0);
+
+    /* Create native OMTensor struct. Note jni_data is owned by the
+     * Java ByteBuffer object. So here the OMTensor is created with
+     * owning=false. Therefore, later when we call omTensorListDestroy
+     * the data buffer will not be freed. Java GC is responsible for
+     * freeing the data buffer when it garbage collects the ByteBuffer
+     * in the OMTensor.
+     */
+    jni_omt =
+        omTensorCreate(jni_data, (int64_t *)jni_shape, jni_rank, jni_dataType);
+
+    (*env)->ReleaseLongArrayElements(env, jomt_strides, jni_strides, 0);
+  }
+
+  /* Release reference to the shape Java object (the strides one is released
+   * above) whether or not the OMTensor struct was created.
+   */
+  (*env)->ReleaseLongArrayElements(env, jomt_shape, jni_shape, 0);
+
+  JNI_CALL(env, , jni_strides != NULL, japi->jecpt_cls,
+      "omt[%d]:jni_strides=%p", i, jni_strides);
+  LIB_CALL(, jni_omt != NULL, env, japi->jecpt_cls, "omt[%d]:jni_omt=%p", i,
+      jni_omt);
+  return jni_omt;
+}
+
+/* Destroy the first n OMTensors of an array that did not make it into an
+ * OMTensorList, and the array itself.
+ */
+static void free_omts(OMTensor **omts, int64_t n) {
+  for (int64_t i = 0; i < n; i++)
+    omTensorDestroy(omts[i]);
+  free(omts);
+}
+
 /* Convert Java object to native data structure
  *
  *          +---------------------------+
@@ -368,7 +461,7 @@ jniapi_t *fill_jniapi(JNIEnv *env, jniapi_t *japi) {
  *   +|----------+            ^ ownership false, owned/freed by Java
  *   |o| | ... | |      +-----|---------+
  *   +-----------+      | _allocatedPtr | (constructed by jniwrapper)
- * jobj_omts, freed     |               |<---+
+ * jni_omts, freed      |               |<---+
  * at the end of        | omTensor      |    |
  * omtl_java_to_native  +---------------+  freed by
  *                      ^                  omTensorListDestroy(jni_iomtl)
@@ -382,6 +475,9 @@ jniapi_t *fill_jniapi(JNIEnv *env, jniapi_t *japi) {
 OMTensorList *omtl_java_to_native(
     JNIEnv *env, jclass cls, jobject java_omtl, jniapi_t *japi) {
 
+  LIB_CALL(, java_omtl != NULL, env, japi->jecpt_cls, "java_omtl=%p",
+      java_omtl);
+
   /* Get OMTensor array Java object in OMTensorList */
   JNI_TYPE_VAR_CALL(env, jobjectArray, jomtl_omts,
       (*env)->CallObjectMethod(env, java_omtl, japi->jomtl_getOmtArray),
@@ -393,118 +489,34 @@ OMTensorList *omtl_java_to_native(
       jomtl_omtn >= 0 && jomtl_omtn <= INT_MAX, japi->jecpt_cls,
       "jomtl_omtn=%ld", jomtl_omtn);
 
-  /* Allocate memory for holding each Java omt object and OMTensor pointers
-   * for constructing native OMTensor array
-   *
-   * jobj_omts are the pointers to the Java OMTensor objects. They are used
-   * to make JNI calls on the OMTensors to retrieve their internal fields
-   * such as data, shape, strides, etc.
+  /* Allocate memory for holding OMTensor pointers for constructing native
+   * OMTensor array
    *
    * jni_omts are the pointers to the native OMTensor structs we construct,
    * filled in with fields we retrieved from the corresponding Java OMTensor
    * objects, and then given to the native OMTensorList struct.
    */
-  LIB_TYPE_VAR_CALL(jobject *, jobj_omts, malloc(jomtl_omtn * sizeof(jobject)),
-      jobj_omts != NULL, env, japi->jecpt_cls, "jobj_omts=%p", jobj_omts);
   LIB_TYPE_VAR_CALL(OMTensor **, jni_omts,
       malloc(jomtl_omtn * sizeof(OMTensor *)), jni_omts != NULL, env,
       japi->jecpt_cls, "jni_omts=%p", jni_omts);
 
   /* Loop through all the jomtl_omts  */
   for (int i = 0; i < jomtl_omtn; i++) {
-    JNI_VAR_CALL(env, jobj_omts[i],
-        (*env)->GetObjectArrayElement(env, jomtl_omts, i), jobj_omts[i] != NULL,
-        japi->jecpt_cls, "jobj_omts[%d]=%p", i, jobj_omts[i]);
-
-    /* Get data, shape, strides, dataType, rank, and bufferSize by calling
-     * corresponding methods
-     */
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_data,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getData),
-        jomt_data != NULL, japi->jecpt_cls, "omt[%d]:data=%p", i, jomt_data);
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_shape,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getShape),
-        jomt_shape != NULL, japi->jecpt_cls, "omt[%d]:shape=%p", i, jomt_shape);
-    JNI_TYPE_VAR_CALL(env, jobject, jomt_strides,
-        (*env)->CallObjectMethod(env, jobj_omts[i], japi->jomt_getStrides),
-        jomt_strides != NULL, japi->jecpt_cls, "omt[%d]:strides=%p", i,
-        jomt_strides);
-    JNI_TYPE_VAR_CALL(env, jint, jomt_dataType,
-        (*env)->CallIntMethod(env, jobj_omts[i], japi->jomt_getDataType),
-        jomt_dataType != ONNX_TYPE_UNDEFINED, japi->jecpt_cls,
-        "omt[%d]:dataType=%d", i, jomt_dataType);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_bufferSize,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getBufferSize),
-        jomt_bufferSize >= 0, japi->jecpt_cls, "omt[%d]:bufferSize=%ld", i,
-        jomt_bufferSize);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_rank,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getRank),
-        jomt_rank >= 0, japi->jecpt_cls, "omt[%d]:rank=%ld", i, jomt_rank);
-    JNI_TYPE_VAR_CALL(env, jlong, jomt_numElems,
-        (*env)->CallLongMethod(env, jobj_omts[i], japi->jomt_getNumElems),
-        jomt_numElems >= 0, japi->jecpt_cls, "omt[%d]:numElems=%ld", i,
-        jomt_numElems);
-
-    /* Get direct buffer associated with data */
-    JNI_TYPE_VAR_CALL(env, void *, jni_data,
-        (*env)->GetDirectBufferAddress(env, jomt_data), jni_data != NULL,
-        japi->jecpt_cls, "omt[%d]:jni_data=%p", i, jni_data);
-
-    /* Get long array associated with data shape and strides */
-    JNI_TYPE_VAR_CALL(env, jlong *, jni_shape,
-        (*env)->GetLongArrayElements(env, jomt_shape, NULL), jni_shape != NULL,
-        japi->jecpt_cls, "omt[%d]:jni_shape=%p", i, jni_shape);
-    JNI_TYPE_VAR_CALL(env, jlong *, jni_strides,
-        (*env)->GetLongArrayElements(env, jomt_strides, NULL),
-        jni_strides != NULL, japi->jecpt_cls, "omt[%d]:jni_strides=%p", i,
-        jni_strides);
-
-    /* Primitive type int and long can be directly used */
-    int jni_dataType = jomt_dataType;
-    int64_t jni_bufferSize = jomt_bufferSize;
-    int64_t jni_rank = jomt_rank;
-    int64_t jni_numElems = jomt_numElems;
-
-    /* Print debug info on what we got from the Java side */
-    OMT_DEBUG(i, jni_numElems, jni_data, jni_shape, jni_strides, jni_dataType,
-        jni_bufferSize, jni_rank, 0);
-
-    /* Create native OMTensor struct. Note jni_data is owned by the
-     * Java ByteBuffer object. So here the OMTensor is created with
-     * owning=false. Therefore, later when we call omTensorListDestroy
-     * the data buffer will not be freed. Java GC is responsible for
-     * freeing the data buffer when it garbage collects the ByteBuffer
-     * in the OMTensor.
-  LIB_CALL(, java_omtl != NULL, env, japi->jecpt_cls, "java_omtl=%p",
-      java_omtl);
-
-     */
-    LIB_VAR_CALL(jni_omts[i],
-        omTensorCreate(jni_data, (int64_t *)jni_shape, jni_rank, jni_dataType),
-        jni_omts[i] != NULL, env, japi->jecpt_cls, "omt[%d]:jni_omts=%p", i,
-        jni_omts[i]);
-
-    /* Release reference to the shape and strides Java objects */
-    JNI_CALL(env,
-        (*env)->ReleaseLongArrayElements(env, jomt_shape, jni_shape, 0), 1,
-        NULL, "");
-    JNI_CALL(env,
-        (*env)->ReleaseLongArrayElements(env, jomt_strides, jni_strides, 0), 1,
-        NULL, "");
+    jobject jobj_omt = (*env)->GetObjectArrayElement(env, jomtl_omts, i);
+    jni_omts[i] = jobj_omt ? omt_java_to_native(env, i, jobj_omt, japi) : NULL;
+    if (jni_omts[i] == NULL) {
+      free_omts(jni_omts, i);
+      JNI_CALL(env, , 0, japi->jecpt_cls, "jobj_omts[%d]=%p", i, jobj_omt);
+    }
   }
 
-  /* We have constructed the native OMTensor structs so the pointers
-   * to the corresponding Java OMTensor objects used for retrieving
-   * their internal fields are no longer needed.
-   */
-  free(jobj_omts);
-
   /* Create OMTensorList to be constructed and passed to the model
    * shared library.
    */
-  LIB_TYPE_VAR_CALL(OMTensorList *, jni_omtl,
-      omTensorListCreate(jni_omts, (int64_t)jomtl_omtn), jni_omtl != NULL, env,
-      japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
+  OMTensorList *jni_omtl = omTensorListCreate(jni_omts, (int64_t)jomtl_omtn);
+  if (jni_omtl == NULL)
+    free_omts(jni_omts, jomtl_omtn);
+  LIB_CALL(, jni_omtl != NULL, env, japi->jecpt_cls, "jni_omtl=%p", jni_omtl);
 
   /* omTensorListCreate makes a copy of the tensor list, so we must free the
      list that we allocateed. */
@@ -694,17 +706,19 @@ JNIEXPORT jobject JNICALL Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(
       "jni_iomtl=%p", jni_iomtl);
 
   /* Call model inference entry point */
-  CHECK_CALL(OMTensorList *, jni_oomtl, run_main_graph(jni_iomtl),
-      jni_oomtl != NULL, "jni_oomtl=%p", jni_oomtl);
+  OMTensorList *jni_oomtl = run_main_graph(jni_iomtl);
 
   /* Convert native data structure to Java object */
-  CHECK_CALL(jobject, java_oomtl,
-      omtl_native_to_java(env, cls, jni_oomtl, japi), java_oomtl != NULL,
-      "java_oomtl=%p", java_oomtl);
+  jobject java_oomtl =
+      jni_oomtl ? omtl_native_to_java(env, cls, jni_oomtl, japi) : NULL;
 
-  /* Free intermediate data structures and return Java object */
+  /* Free intermediate data structures, also when the call failed, and return
+   * Java object
+   */
   omTensorListDestroy(jni_iomtl);
   omTensorListDestroy(jni_oomtl);
+  LIB_CALL(, jni_oomtl != NULL, env, japi->jecpt_cls, "jni_oomtl=%p",
+      jni_oomtl);
   return java_oomtl;
 }
 
@@ -802,6 +816,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
       (*env)->FindClass(env, jnistr[CLS_JAVA_LANG_EXCEPTION]),
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   /* Get reference to the signature Java String object */
   JNI_TYPE_VAR_CALL(env, const char *, jni_ep,
       (*env)->GetStringUTFChars(env, ep, NULL), jni_ep != NULL, jecpt_cls,
@@ -816,8 +832,6 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
 
   /* Entry point name in hex and string format for debugging */
   HEX_DEBUG("ep", epptr, strlen(epptr));
-  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
-
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model input signature API */
@@ -831,6 +845,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
   /* Release reference to the signature Java String object */
   JNI_CALL(env, (*env)->ReleaseStringUTFChars(env, ep, jni_ep), 1, NULL, "");
 
+  /* There is no signature for an unknown entry point */
+  LIB_CALL(, jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
+
   /* Output signature in hex and string format for debugging */
   HEX_DEBUG("isig", jni_isig, strlen(jni_isig));
   LOG_PRINTF(LOG_DEBUG, "isig(%d):%s", strlen(jni_isig), jni_isig);
@@ -845,9 +862,6 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(
 
   /* Convert to Java String object */
   JNI_TYPE_VAR_CALL(env, jstring, java_isig, (*env)->NewStringUTF(env, sigptr),
-  /* There is no signature for an unknown entry point */
-  LIB_CALL(, jni_isig != NULL, env, jecpt_cls, "jni_isig=%p", jni_isig);
-
       java_isig != NULL, jecpt_cls, "java_isig=%p", java_isig);
 
   /* On z/OS, free the ASCII input signature no longer needed */
@@ -868,6 +882,8 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
       (*env)->FindClass(env, jnistr[CLS_JAVA_LANG_EXCEPTION]),
       jecpt_cls != NULL, NULL, "Class java/lang/Exception not found");
 
+  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
+
   /* Get reference to the signature Java String object */
   JNI_TYPE_VAR_CALL(env, const char *, jni_ep,
       (*env)->GetStringUTFChars(env, ep, NULL), jni_ep != NULL, jecpt_cls,
@@ -882,8 +898,6 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
 
   /* Entry point name in hex and string format for debugging */
   HEX_DEBUG("ep", epptr, strlen(epptr));
-  LIB_CALL(, ep != NULL, env, jecpt_cls, "ep=%p", ep);
-
   LOG_PRINTF(LOG_DEBUG, "ep(%d):%s", strlen(epptr), epptr);
 
   /* Call model output signature API */
@@ -897,6 +911,9 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
   /* Release reference to the signature Java String object */
   JNI_CALL(env, (*env)->ReleaseStringUTFChars(env, ep, jni_ep), 1, NULL, "");
 
+  /* There is no signature for an unknown entry point */
+  LIB_CALL(, jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
+
   /* Output signature in hex and string format for debugging */
   HEX_DEBUG("osig", jni_osig, strlen(jni_osig));
   LOG_PRINTF(LOG_DEBUG, "osig(%d):%s", strlen(jni_osig), jni_osig);
@@ -911,9 +928,6 @@ JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(
 
   /* Convert to Java String object */
   JNI_TYPE_VAR_CALL(env, jstring, java_osig, (*env)->NewStringUTF(env, sigptr),
-  /* There is no signature for an unknown entry point */
-  LIB_CALL(, jni_osig != NULL, env, jecpt_cls, "jni_osig=%p", jni_osig);
-
       java_osig != NULL, jecpt_cls, "java_osig=%p", java_osig);
 
   /* On z/OS, free the ASCII output signature no longer needed */
-- 
2.43.0


From 4044cef9c01d0a33b79c22baa90a81a00bb05ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 071/113] fix: OMTensor.setBoolData makes the tensor a bool
 tensor

---
 src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
index 87f56a7..8d9fbee 100644
--- a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
+++ b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
@@ -235,7 +235,7 @@ public class OMTensor {
          */
         _data = ByteBuffer.allocateDirect(data.length);
         _data.slice().put(data);
-        _dataType = ONNX_TYPE_INT8;
+        _dataType = ONNX_TYPE_BOOL;
     }
 
     /* ---------- Byte data getter and setter ---------- */
-- 
2.43.0


From 322e1569dfc58e4a256b2e671840f24aa68508c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 072/113] fix: CumSum over an axis of size 1 left its result
 uninitialised

---
 src/Conversion/ONNXToKrnl/Math/CumSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
index 017d4f2..6bc8e9c 100644
--- a/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/CumSum.cpp
@@ -138,7 +138,9 @@ struct ONNXCumSumOpLowering : public OpConversionPattern<ONNXCumSumOp> {
     IndexExpr numberOfStep;
     if (axisSize.isLiteral()) {
       int64_t n = axisSize.getLiteral();
-      int64_t logN = static_cast<int64_t>(std::ceil(std::log2(n)));
+      // At least one step is needed: it is what writes the result.
+      int64_t logN =
+          std::max<int64_t>(1, static_cast<int64_t>(std::ceil(std::log2(n))));
       numberOfStep = LitIE(logN);
     } else {
       Value nos = create.math.cast(f32Ty, axisSize.getValue());
-- 
2.43.0


From 8c664e0f8cf34e8f4af3d59bb9370ae0286f9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 073/113] fix: ArgMax/ArgMin ignored select_last_index

---
 .../ONNXToKrnl/Tensor/ArgMinMax.cpp           | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp b/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
index c167984..7124bed 100644
--- a/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
+++ b/src/Conversion/ONNXToKrnl/Tensor/ArgMinMax.cpp
@@ -21,18 +21,21 @@ using namespace mlir;
 namespace onnx_mlir {
 
 template <typename ARG_OP>
-inline Value getCondition(MathBuilder createMath, Value next, Value dstVal);
+inline Value getCondition(
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast);
 
 template <>
 inline Value getCondition<ONNXArgMinOp>(
-    MathBuilder createMath, Value next, Value dstVal) {
-  return createMath.slt(next, dstVal);
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast) {
+  return selectLast ? createMath.sle(next, dstVal)
+                    : createMath.slt(next, dstVal);
 }
 
 template <>
 inline Value getCondition<ONNXArgMaxOp>(
-    MathBuilder createMath, Value next, Value dstVal) {
-  return createMath.sgt(next, dstVal);
+    MathBuilder createMath, Value next, Value dstVal, bool selectLast) {
+  return selectLast ? createMath.sge(next, dstVal)
+                    : createMath.sgt(next, dstVal);
 }
 
 template <typename ARG_OP>
@@ -82,6 +85,9 @@ struct ONNXArgMinMaxOpLowering : public OpConversionPattern<ARG_OP> {
     int64_t keepdims = argOp.getKeepdims();
     bool isKeepdims = (keepdims == 1) ? true : false;
 
+    // On ties, the last occurrence is selected instead of the first one.
+    bool selectLast = argOp.getSelectLastIndex() != 0;
+
     // Get type information
     llvm::SmallVector<int64_t, 1> axes;
     axes.push_back(axis);
@@ -142,7 +148,8 @@ struct ONNXArgMinMaxOpLowering : public OpConversionPattern<ARG_OP> {
           Value dstVal = createKrnl.load(data, dstLoopIVs);
 
           // if next value is smaller/larger than current value, update index
-          Value newDstVal = getCondition<ARG_OP>(create.math, next, dstVal);
+          Value newDstVal =
+              getCondition<ARG_OP>(create.math, next, dstVal, selectLast);
           Value pos =
               create.math.cast(rewriter.getIntegerType(64), inLoopIVs[axis]);
           idx = create.math.select(newDstVal, pos, idx);
-- 
2.43.0


From 43635756126f33f1c1c86e6b03dcf9e2203510a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 074/113] fix: GroupNormalization 21 reshaped scale and bias to
 the wrong shape

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 824da49..fd1dd44 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -2344,12 +2344,14 @@ LogicalResult ONNXGroupNormalizationCommon(
 
     // Calculate the (possible) dynamic dimensions for biasScaleShape
     Value NGShape = create.onnx.constantInt64({numGroups});
+    Value perGroupShape = create.onnx.constantInt64(
+        {C != ShapedType::kDynamic ? C / numGroups : -1});
     Value oneDimShape =
         create.onnx.constantInt64(SmallVector<int64_t>(spacialRank, 1));
     Type biasScaleShapeType =
         RankedTensorType::get({inputRank}, rewriter.getI64Type());
     Value biasScaleShape = create.onnx.concat(
-        biasScaleShapeType, {NGShape, NGShape, oneDimShape}, /*axis*/ 0);
+        biasScaleShapeType, {NGShape, perGroupShape, oneDimShape}, /*axis*/ 0);
 
     // Reshape instead of unsqueeze (use biasScaleShape)
     biasScaleType = RankedTensorType::get(biasScaleVal, elementType);
-- 
2.43.0


From ea6eabbe700c0760771b4f31bcc89c1b2737d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 075/113] fix: MatMul by a vector of unknown size indexed
 dimension -2 of it

---
 src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
index cb781e3..7fd6c79 100644
--- a/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Math/MatMul.cpp
@@ -142,8 +142,8 @@ LogicalResult ONNXGenericMatMulOpShapeHelper<OP_TYPE>::computeShape() {
   } else if (aDims[aK].isLiteral()) {
     // Save aK dims into bK dims, in case bK dims was runtime.
     bDims[bK] = aDims[aK];
-    // Update bK dim to the literal aK.
-    this->updateInputDimAt(B, aDims[aK].getLiteral(), -2);
+    // Update bK dim (the only one when B is 1-D) to the literal aK.
+    this->updateInputDimAt(B, aDims[aK].getLiteral(), bRank == 1 ? -1 : -2);
   } else if (bDims[bK].isLiteral()) {
     // Save bK dims into aK dims, in case aK dims was runtime.
     aDims[aK] = bDims[bK];
-- 
2.43.0


From 4c9907749e2da48e988c2b2d4e0dd12e8ca34d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 076/113] fix: periodic window of an int64 size mixed i32 and
 i64

---
 src/Conversion/ONNXToKrnl/Math/Window.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/Window.cpp b/src/Conversion/ONNXToKrnl/Math/Window.cpp
index 2130268..839d4ee 100644
--- a/src/Conversion/ONNXToKrnl/Math/Window.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Window.cpp
@@ -122,9 +122,9 @@ struct GenericWindowOpLowering : public OpConversionPattern<ONNXOp> {
 
     // If periodic, N += 1
     auto periodic = windowOp.getPeriodic();
-    auto oneI32 = create.math.constant(rewriter.getI32Type(), 1);
+    auto oneInt = create.math.constant(windowSizeVal.getType(), 1);
     Value computeSize =
-        periodic ? create.math.add(windowSizeVal, oneI32) : windowSizeVal;
+        periodic ? create.math.add(windowSizeVal, oneInt) : windowSizeVal;
 
     // Allocate the output tensor of size N.
     Value windowSizeForAlloc = create.math.castToIndex(windowSizeVal);
-- 
2.43.0


From ffc05dcb810d2ace89574b9ff1af278b9233b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 077/113] fix: import of Slice with an omitted optional input

---
 src/Builder/FrontendDialectTransformer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 3d33df2..f6570a5 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -1071,6 +1071,9 @@ private:
     };
 
     for (const auto &item : llvm::enumerate(node.input())) {
+      // Optional inputs may be omitted.
+      if (item.value().empty())
+        continue;
       if (const Value *valuePtr =
               frontend_symbols_.GetByOnnxName(item.value())) {
         inVals[item.index()] = *valuePtr;
-- 
2.43.0


From c3aa8185ace32374eb55e22cfc69cdb42e6c5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 078/113] fix: generic MatMul read beyond a batch dimension of
 size 1 that is broadcast

---
 src/Conversion/ONNXToKrnl/Math/MatMul.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
index c1965b0..7e62376 100644
--- a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
@@ -95,8 +95,19 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                 Value k = innerIndex[0];
                 SmallVector<Value, 4> aAccessFct, bAccessFct;
                 for (int i = 0; i < aRank; ++i) {
+                  // A batch dim of literal size 1 is broadcast: access its only
+                  // element.
+                  bool isBatch = i < aRank - 2;
+                  bool aBroadcast = isBatch && !shapeHelper.aPadDims[i] &&
+                                    shapeHelper.aDims[i].isLiteralAndIdenticalTo(1);
+                  bool bBroadcast = isBatch && !shapeHelper.bPadDims[i] &&
+                                    shapeHelper.bDims[i].isLiteralAndIdenticalTo(1);
+                  if (aBroadcast)
+                    aAccessFct.emplace_back(create.math.constantIndex(0));
+                  if (bBroadcast)
+                    bAccessFct.emplace_back(create.math.constantIndex(0));
                   // Add index if dim is not a padded dimension.
-                  if (!shapeHelper.aPadDims[i]) {
+                  if (!shapeHelper.aPadDims[i] && !aBroadcast) {
                     // For A, reduction index is last
                     if (i == aRank - 1) {
                       aAccessFct.emplace_back(k);
@@ -104,7 +115,7 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
                       aAccessFct.emplace_back(outerIndices[i]);
                     }
                   }
-                  if (!shapeHelper.bPadDims[i]) {
+                  if (!shapeHelper.bPadDims[i] && !bBroadcast) {
                     // For B, reduction index is second to last.
                     if (i == bRank - 2) {
                       bAccessFct.emplace_back(k);
-- 
2.43.0


From 70cf32e554c5fbdb5810544702a4b935c6bf5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:07 +0000
Subject: [PATCH 079/113] fix: reduction without axes and with
 noop_with_empty_axes reduced everything with SIMD

---
 src/Conversion/ONNXToKrnl/Math/Reduction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
index 6888ae9..250f543 100644
--- a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
@@ -699,8 +699,10 @@ struct ONNXReductionOpLowering : public OpConversionPattern<ONNXReductionOp> {
 
     //////////////////////////////////////////////////////////////////////
     // Reduction over all dimensions to a scalar value.
+    // No axes with the noop attribute means no reduction at all.
     bool fullReduction =
-        hasNoAxes || (rawAxesIE.size() == static_cast<uint64_t>(inRank));
+        hasNoAxes ? !isNoop
+                  : (rawAxesIE.size() == static_cast<uint64_t>(inRank));
     if (fullReduction && !isKeepdims && enableSIMD) {
       Value alloc, none;
       if (emitFullSIMDReductionFor<ONNXReductionOp, ONNXNoneOp>(rewriter, loc,
-- 
2.43.0


From 79dd329ca4d2d8f63b6fbf12e9a7bd77c98c1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:07 +0000
Subject: [PATCH 080/113] fix: constant propagation of Clip without bounds
 clipped signed integers to -1..0

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index dfa51dc..8114899 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -172,8 +172,13 @@ Value createMaximumValueForClip(
   if (!isNoneValue(value))
     return value;
 
+  // Signless integers are signed in ONNX, except for booleans.
+  bool isSigned = !type.getElementType().isUnsignedInteger() &&
+                  !type.getElementType().isInteger(1);
+
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, false, llvm::APInt::getMaxValue);
+      llvm::APFloat::getLargest, false,
+      isSigned ? llvm::APInt::getSignedMaxValue : llvm::APInt::getMaxValue);
 }
 
 Value createMinimumValueForClip(
@@ -183,8 +188,13 @@ Value createMinimumValueForClip(
   if (!isNoneValue(value))
     return value;
 
+  // Signless integers are signed in ONNX, except for booleans.
+  bool isSigned = !type.getElementType().isUnsignedInteger() &&
+                  !type.getElementType().isInteger(1);
+
   return getClipConstantOfType(rewriter, type, value.getLoc(),
-      llvm::APFloat::getLargest, true, llvm::APInt::getMinValue);
+      llvm::APFloat::getLargest, true,
+      isSigned ? llvm::APInt::getSignedMinValue : llvm::APInt::getMinValue);
 }
 
 // Extracts number from a scalar constant value.
-- 
2.43.0


From f5932fe9769e27cfb44b9df03b1a6b2a271c917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:35 +0000
Subject: [PATCH 081/113] fix: simplification of Gather from a shape took
 negative indices wrong

---
 src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
index 230a063..7799d63 100644
--- a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
+++ b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
@@ -247,19 +247,19 @@ public:
 
     // Rewrite
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
-    int64_t inputRank = getRank(input.getType());
+    SmallVector<Value, 4> dims;
+    getDims(input, dims);
+    int64_t numDims = dims.size();
 
     // Compute integer indices.
     SmallVector<int64_t, 4> indicesI64;
     for (auto element : indicesAttr.getValues<IntegerAttr>()) {
       int64_t axis = element.getInt();
-      axis = (axis < 0) ? (axis + inputRank) : axis;
+      axis = (axis < 0) ? (axis + numDims) : axis;
       indicesI64.emplace_back(axis);
     }
 
     // Replace GatherOp by ConcatOp of specific dimensions.
-    SmallVector<Value, 4> dims;
-    getDims(input, dims);
     SmallVector<Value> castedDims;
     SmallVector<Value> gatherDims;
     for (int64_t i : indicesI64)
-- 
2.43.0


From 153ebc058131bde7f35173c7c14bcef6df50271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:35 +0000
Subject: [PATCH 082/113] fix: dimension analysis related dimension values to
 unrelated dimensions, and did not end

---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index 86b64d6..f22e684 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -1444,27 +1444,11 @@ void DimAnalysis::visitDimForOffsets(DimT &dim) const {
   if (!op || isa<ONNXConstantOp>(op))
     return;
 
-  // Special case: ONNXAddOp with constant operand creates offset relationship.
-  if (auto addOp = mlir::dyn_cast<ONNXAddOp>(op)) {
-    Value A = addOp.getA();
-    Value B = addOp.getB();
-
-    if (auto constOp = B.getDefiningOp<ONNXConstantOp>()) {
-      int64_t offset = getScalarValue<int64_t>(constOp);
-      DimT inputDim(A, dimIndex);
-      dimRelations[inputDim].emplace_back(inputDim, offset, dim, 0);
-      LLVM_DEBUG(llvm::dbgs() << "  - [Add] dim(" << A << ", " << dimIndex
-                              << ") + " << offset << "\n");
-      return;
-    } else if (auto constOp = A.getDefiningOp<ONNXConstantOp>()) {
-      int64_t offset = getScalarValue<int64_t>(constOp);
-      DimT inputDim(B, dimIndex);
-      dimRelations[inputDim].emplace_back(inputDim, offset, dim, 0);
-      LLVM_DEBUG(llvm::dbgs() << "  - [Add] dim(" << B << ", " << dimIndex
-                              << ") + " << offset << "\n");
-      return;
-    }
-  }
+  // Results of DimOp and CastOp in the sets may stand for the value of a
+  // dimension. Such a value is not a dimension of the operands.
+  auto type = mlir::cast<ShapedType>(tensor.getType());
+  if (dimIndex >= (uint64_t)type.getRank() || !type.isDynamicDim(dimIndex))
+    return;
 
   // Special case: ONNXConcatOp on concat axis with one dynamic input.
   if (auto concatOp = mlir::dyn_cast<ONNXConcatOp>(op)) {
-- 
2.43.0


From 7d9c55e9f223b8fca40613dae00364b05f968f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:10 +0000
Subject: [PATCH 083/113] fix: outputs sharing a storage all owned it, so it
 was freed twice

---
 src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
index c517820..e804204 100644
--- a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
+++ b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
@@ -124,6 +124,13 @@ static bool shouldOwn(Value v) {
   return result;
 }
 
+// Return the value that a value is a view of.
+static Value getViewedStorage(Value v) {
+  while (auto viewOp = v.getDefiningOp<ViewLikeOpInterface>())
+    v = viewOp.getViewSource();
+  return v;
+}
+
 void determineOwnershipForOutputOMTensors(
     ModuleOp &module, SmallVectorImpl<bool> &outputOMTensorOwnerships) {
   Operation *entryPointOp;
@@ -169,9 +176,11 @@ void determineOwnershipForOutputOMTensors(
   });
 
   // Check, for each output, if it was transitively produced by a constant or
-  // a block argument.
+  // a block argument. Among outputs sharing a storage only one can own it.
+  llvm::SmallPtrSet<Value, 4> ownedStorages;
   for (Value v : returnOp->getOperands()) {
-    bool shouldOwnResult = shouldOwn(v);
+    bool shouldOwnResult =
+        shouldOwn(v) && ownedStorages.insert(getViewedStorage(v)).second;
     outputOMTensorOwnerships.emplace_back(shouldOwnResult);
     LLVM_DEBUG(llvm::dbgs()
                << "Should the OMTensor own the entry function output? "
-- 
2.43.0


From 28da538dbbc2a1e409c2605e521450524a870e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:00 +0000
Subject: [PATCH 084/113] fix: recomposed layer normalisation dropped the
 epsilon of the model

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index 6b25450..a0579fa 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -274,11 +274,11 @@ struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
     // Now check values epsilon.
     if (!isScalarTensor(epsilon))
       return reportFailure("RMS epsilon is expected to be scalar");
-    ONNXConstantOp epsilonOp =
-        mlir::dyn_cast<ONNXConstantOp>(epsilon.getDefiningOp());
-    if (!epsilonOp)
+    ElementsAttr epsilonElements = getElementAttributeFromONNXValue(epsilon);
+    if (!epsilonElements)
       return reportFailure("RMS epsilon needs to be a constant");
-    epsilonAttr = epsilonOp.getValueFloatAttr();
+    epsilonAttr = FloatAttr::get(Float32Type::get(LayerNormOp.getContext()),
+        (*epsilonElements.getValues<APFloat>().begin()).convertToDouble());
     // Check axes.
     if (!hasShapeAndRank(dd))
       return reportFailure("RMS need rank and shape for input dd");
-- 
2.43.0


From 15ae0b6edd6992875b490e961526ef1747bdd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:00 +0000
Subject: [PATCH 085/113] fix: Pow by 0 of a value of unknown shape crashed the
 compiler

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index fd1dd44..3c2019c 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1208,6 +1208,8 @@ public:
     ShapedType resultType = mlir::cast<ShapedType>(powOp.getZ().getType());
     Type elementType = getElementType(resultType);
     if (exponent == 0) {
+      if (!resultType.hasStaticShape())
+        return failure();
       Attribute one =
           isa<FloatType>(elementType)
               ? static_cast<Attribute>(rewriter.getFloatAttr(elementType, 1.0))
-- 
2.43.0


From 822f4ffcac1859b5da76e8d8ea0b6f9950302c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:56 +0000
Subject: [PATCH 086/113] fix: combined parallel convolutions gave the channels
 in the wrong order

---
 src/Dialect/ONNX/Transforms/Recompose.cpp | 75 ++++++++++++++---------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index a0579fa..fd59e9d 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -665,7 +665,8 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
     // Collect all ONNXConvOps using this input.
     SmallVector<ONNXConvOp> candidateConvs;
     for (auto user : input.getUsers()) {
-      if (auto conv = dyn_cast<ONNXConvOp>(user))
+      if (auto conv = dyn_cast<ONNXConvOp>(user);
+          conv && conv.getX() == input)
         candidateConvs.push_back(conv);
     }
 
@@ -689,6 +690,45 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
 
     SmallVector<ONNXConvOp> parallelConvs = candidateConvs;
 
+    ONNXConcatOp commonConcatOp = nullptr;
+    bool allOutputsUsedInCommonConcat = true;
+
+    for (auto conv : parallelConvs) {
+      bool usedInCommonConcat = false;
+      for (auto user : conv.getResult().getUsers()) {
+        if (auto concatOp = dyn_cast<ONNXConcatOp>(user)) {
+          if (!commonConcatOp) {
+            commonConcatOp = concatOp;
+          }
+          if (concatOp != commonConcatOp) {
+            allOutputsUsedInCommonConcat = false;
+            break;
+          }
+          usedInCommonConcat = true;
+        } else {
+          allOutputsUsedInCommonConcat = false;
+          break;
+        }
+      }
+      if (!usedInCommonConcat || !allOutputsUsedInCommonConcat) {
+        allOutputsUsedInCommonConcat = false;
+        break;
+      }
+    }
+
+    // The combined convolution gives the channels in the order of
+    // parallelConvs, it replaces a concat of exactly these convolutions when
+    // they are combined in the order of the concat.
+    bool replaceCommonConcat =
+        allOutputsUsedInCommonConcat && commonConcatOp &&
+        commonConcatOp.getAxis() == 1 &&
+        commonConcatOp.getInputs().size() == parallelConvs.size();
+    if (replaceCommonConcat) {
+      parallelConvs.clear();
+      for (Value concatInput : commonConcatOp.getInputs())
+        parallelConvs.push_back(concatInput.getDefiningOp<ONNXConvOp>());
+    }
+
     SmallVector<Value> weightValues;
     int64_t totalOutputChannels = 0;
     for (auto conv : parallelConvs) {
@@ -789,34 +829,7 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
             convOp1.getGroupAttr(), convOp1.getKernelShapeAttr(),
             convOp1.getPadsAttr(), convOp1.getStridesAttr());
 
-    ONNXConcatOp commonConcatOp = nullptr;
-    bool allOutputsUsedInCommonConcat = true;
-
-    for (auto conv : parallelConvs) {
-      bool usedInCommonConcat = false;
-      for (auto user : conv.getResult().getUsers()) {
-        if (auto concatOp = dyn_cast<ONNXConcatOp>(user)) {
-          if (!commonConcatOp) {
-            commonConcatOp = concatOp;
-          }
-          if (concatOp != commonConcatOp) {
-            allOutputsUsedInCommonConcat = false;
-            break;
-          }
-          usedInCommonConcat = true;
-        } else {
-          allOutputsUsedInCommonConcat = false;
-          break;
-        }
-      }
-      if (!usedInCommonConcat || !allOutputsUsedInCommonConcat) {
-        allOutputsUsedInCommonConcat = false;
-        break;
-      }
-    }
-
-    if (allOutputsUsedInCommonConcat && commonConcatOp &&
-        commonConcatOp.getAxis() == 1) {
+    if (replaceCommonConcat) {
       rewriter.replaceOp(commonConcatOp, newConv);
     } else {
       SmallVector<int64_t> splitSizesVec;
@@ -843,6 +856,10 @@ struct CombineParallelConv2DPattern : public OpRewritePattern<ONNXConvOp> {
   }
 
   static bool areCompatible(ONNXConvOp a, ONNXConvOp b) {
+    // The groups of the combined convolution would not be those of a and b.
+    if (a.getGroup() != 1)
+      return false;
+
     if (a.getAutoPad() != b.getAutoPad() ||
         a.getDilations() != b.getDilations() || a.getGroup() != b.getGroup() ||
         a.getKernelShape() != b.getKernelShape() ||
-- 
2.43.0


From c3fac773b4f766bdc582d8de8e0fcb3323ce29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 087/113] fix: recomposed layer normalisation dropped the
 dimensions its scale or bias adds

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp |  2 ++
 src/Dialect/ONNX/ONNXOps/OpHelper.cpp     | 14 ++++++++++++++
 src/Dialect/ONNX/ONNXOps/OpHelper.hpp     |  5 +++++
 src/Dialect/ONNX/Transforms/Recompose.cpp |  4 ++++
 4 files changed, 25 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 3c2019c..6a9074d 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -2076,6 +2076,8 @@ struct PropagateBiasIntoLayerNormRewritePattern
     auto lnOp = mlir::cast<OP_TYPE>(yLayerNormOp);
     if (!onnx_mlir::isNoneValue(lnOp.getB()))
       return reportFailure("layer norm already has a bias");
+    if (!onnx_mlir::isBroadcastableTo(bias, lnOp.getX()))
+      return reportFailure("bias must be broadcastable to the input");
     // We are fine.
     Value x = lnOp.getX();
     Value scale = lnOp.getScale();
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
index 1a2ce9d..4580f24 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.cpp
@@ -871,6 +871,20 @@ bool isScalarTensor(Value v) {
               (getRank(v.getType()) == 1 && getShape(v.getType())[0] == 1)));
 }
 
+bool isBroadcastableTo(Value v, Value x) {
+  if (!hasShapeAndRank(v) || !hasShapeAndRank(x))
+    return false;
+  ArrayRef<int64_t> vShape = getShape(v.getType());
+  ArrayRef<int64_t> xShape = getShape(x.getType());
+  if (vShape.size() > xShape.size())
+    return false;
+  return llvm::all_of(
+      llvm::zip(vShape, xShape.take_back(vShape.size())), [](auto dims) {
+        auto [vDim, xDim] = dims;
+        return vDim == 1 || vDim == xDim;
+      });
+}
+
 bool hasIntegerPowerExponent(ONNXPowOp *op, int64_t &exponentValue) {
   Value exponent = op->getY();
   ElementsAttr elementAttr = getElementAttributeFromONNXValue(exponent);
diff --git a/src/Dialect/ONNX/ONNXOps/OpHelper.hpp b/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
index bc79acf..20c195b 100644
--- a/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
+++ b/src/Dialect/ONNX/ONNXOps/OpHelper.hpp
@@ -295,6 +295,11 @@ int64_t mlirTypeToOnnxType(mlir::Type elemType);
 /// Check if a value is a scalar tensor.
 bool isScalarTensor(mlir::Value v);
 
+/// Check if broadcasting a value with x leaves x as it is: the value has no more
+/// dimensions, and none that enlarges one of x. Dynamic dimensions of both are
+/// taken to agree.
+bool isBroadcastableTo(mlir::Value v, mlir::Value x);
+
 bool hasIntegerPowerExponent(mlir::ONNXPowOp *op, int64_t &exponentValue);
 
 //===----------------------------------------------------------------------===//
diff --git a/src/Dialect/ONNX/Transforms/Recompose.cpp b/src/Dialect/ONNX/Transforms/Recompose.cpp
index fd59e9d..7c203a6 100644
--- a/src/Dialect/ONNX/Transforms/Recompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Recompose.cpp
@@ -331,6 +331,10 @@ struct RecomposeLayerNormFromMulPattern : public OpRewritePattern<ONNXMulOp> {
         hasFullPattern = reportFailure("LN mean and var axes must be the same");
     }
 
+    // The result has the shape of the normalised value.
+    if (!isBroadcastableTo(scale, d))
+      return reportFailure("scale must be broadcastable to the input");
+
     // We have now success, either with the shorter RMS LN pattern or the
     // full/traditional LN pattern. Set the last params and report success.
     axis = varAxis;
-- 
2.43.0


From c28503b4cd991962ee54019db29643ad0493a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:23 +0000
Subject: [PATCH 088/113] fix: Gather of dimensions by indices of rank 2 or
 more gave a vector

---
 src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
index 7799d63..2f00d44 100644
--- a/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
+++ b/src/Dialect/ONNX/Transforms/SimplifyShapeRelatedOps.cpp
@@ -244,6 +244,9 @@ public:
     ElementsAttr indicesAttr = getElementAttributeFromONNXValue(indices);
     if (!indicesAttr)
       return failure();
+    // The result is a concat of dims only when it has at most one dimension.
+    if (indicesAttr.getShapedType().getRank() > 1)
+      return failure();
 
     // Rewrite
     MultiDialectBuilder<OnnxBuilder> create(rewriter, loc);
-- 
2.43.0


From 0d932f8a989490a469d3c07d3ab9e973f105064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:33 +0000
Subject: [PATCH 089/113] fix: Pow by a constant of higher rank was rewritten
 to a Mul of lower rank

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 6a9074d..1c8ff71 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1235,8 +1235,14 @@ public:
 private:
   // Check if a Pow can be simply rewritten as a sequence of multiply ops.
   bool CanExpandPowOpToMul(ONNXPowOp op, int64_t &powVal) const {
-    return (hasIntegerPowerExponent(&op, powVal) && powVal >= 0 &&
-            powVal <= maxPower);
+    if (!hasIntegerPowerExponent(&op, powVal) || powVal < 0 ||
+        powVal > maxPower)
+      return false;
+    // Multiplications give the shape of X, the exponent must not add dimensions.
+    Value x = op.getX();
+    int64_t exponentRank = getRank(op.getY().getType());
+    return exponentRank == 0 ||
+           (hasShapeAndRank(x) && exponentRank <= getRank(x.getType()));
   }
   // Data.
   int64_t maxPower;
-- 
2.43.0


From c7e28c5ab987e0b374346f1d83991817c904de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:33 +0000
Subject: [PATCH 090/113] fix: comparison of floats cast to integers compared
 the floats

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.td | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.td b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
index 52f0225..838056a 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.td
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.td
@@ -173,6 +173,10 @@ def  ElementTypeIsNotUnsigned: Constraint<
     CPred<"!mlir::dyn_cast<ShapedType>($_self.getType()).getElementType().isUnsignedInteger()">,
     "element type is not unsigned int">;
 
+def ElementTypeIsInteger: Constraint<
+    CPred<"mlir::isa<IntegerType>(mlir::dyn_cast<ShapedType>($_self.getType()).getElementType())">,
+    "element type is integer">;
+
 def HaveSameEncodingAttr: Constraint<
     CPred<"sameEncodingAttr($0.getType(), $1.getType())">,
     "have same RankedTensorType's encoding attribute">;
@@ -1082,6 +1086,7 @@ def LessOpSameCastPattern: Pat<
    (ONNXLessOp $a, $b),
    [(HaveSameElementType $a, $b), (Equal $saturate1, $saturate2), (Equal $to1, $to2),
     (HaveSameElementTypeBitWidth $a, $cast_a),
+    (ElementTypeIsInteger:$a), (ElementTypeIsNotUnsigned:$a),
     (ElementTypeIsNotUnsigned:$cast_a)]
 >;
 
-- 
2.43.0


From a9278bd1e785b3ec32320ebb905440599cbe2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:34 +0000
Subject: [PATCH 091/113] fix: reduction of a scalar crashed the compiler with
 SIMD

---
 src/Conversion/ONNXToKrnl/Math/Reduction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
index 250f543..b5d5d96 100644
--- a/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/Reduction.cpp
@@ -402,6 +402,9 @@ bool emitFullSIMDReductionFor(ConversionPatternRewriter &rewriter, Location loc,
   MemRefType inputType = mlir::cast<MemRefType>(input.getType());
   Type elementType = inputType.getElementType();
   int64_t inputRank = inputType.getRank();
+  // A scalar has no dimension to flatten.
+  if (inputRank == 0)
+    return false;
   DimsExpr inputDims, flatInputDims;
   create.krnlIE.getShapeAsSymbols(input, inputDims);
   // Flatten entirely the input memref.
-- 
2.43.0


From 7cc4eb78b110e6f4486ce0b9ad7673e53f5d8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:34 +0000
Subject: [PATCH 092/113] fix: constant propagation of Mod crashed on unsigned
 integers and on divisors of 0

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 8114899..7731fcc 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -296,11 +296,14 @@ struct ElementWiseBinaryOpImpl<ONNXMaxOp, T> {
   static T eval(T lhs, T rhs) { return std::max<T>(lhs, rhs); }
 };
 
-template <>
-struct ElementWiseBinaryOpImpl<ONNXModOp, int64_t, EnableNotBool<int64_t>> {
-  static int64_t eval(int64_t lhs, int64_t rhs) {
+template <typename T>
+struct ElementWiseBinaryOpImpl<ONNXModOp, T, EnableInteger<T>> {
+  static T eval(T lhs, T rhs) {
+    // Undefined behavior, the remainder would crash. See Div.
+    if (rhs == 0)
+      return lhs;
     // The original calculation for mod
-    int64_t mod = lhs % rhs;
+    T mod = lhs % rhs;
     // Handle the case when one of the int values are negative
     // If both int values are positive or multiples of each other, we can
     // calculate as normal
-- 
2.43.0


From 7081086fc8edd31b7c47831ded10a3e979acfdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:05 +0000
Subject: [PATCH 093/113] fix: constant propagation of Pow crashed on operands
 of different types

---
 src/Dialect/ONNX/Transforms/ConstProp.td | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.td b/src/Dialect/ONNX/Transforms/ConstProp.td
index f2547cf..1a1915e 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.td
+++ b/src/Dialect/ONNX/Transforms/ConstProp.td
@@ -92,6 +92,10 @@ def ValuesHaveSameType : Constraint<
   CPred<"$0.getType() == $1.getType()">,
   "Values have same type">;
 
+def ValuesHaveSameElementType : Constraint<
+  CPred<"getElementType($0.getType()) == getElementType($1.getType())">,
+  "Values have the same element type">;
+
 def IsMatMulIntegerLhsZero: Constraint<
     CPred<"isMatMulIntegerLhsZero($0, $1)">,
     "MatMulInteger lhs matrix is zero for given zero point">;
@@ -1212,8 +1216,8 @@ def PowConstProp : NamedPat<"PowConstProp",
                       (ONNXConstantOp:$rhs $_, $_, $_, $_, $_, $_, $_, $_)),
     // To c1^c2
     (CreatePowOfTwoConst $powOp, $lhs, $rhs),
-    // Power constraints
+    // Power constraints, base and exponent may have different types.
     [(IsFromDenseONNXConstantOp:$lhs), (IsFromDenseONNXConstantOp:$rhs),
-     (SatisfiesExpansionBound:$powOp)]>;
+     (ValuesHaveSameElementType $lhs, $rhs), (SatisfiesExpansionBound:$powOp)]>;
 
 #endif // ONNX_CONSTPROP
-- 
2.43.0


From 999470650c963f8a55499b580d2a3f1a77d3c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 094/113] fix: checks generated by --enable-bound-check were
 not lowered

---
 src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
index e804204..4bcad02 100644
--- a/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
+++ b/src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp
@@ -242,6 +242,8 @@ void populateAffineAndKrnlToLLVMConversion(RewritePatternSet &patterns,
   }
   arith::populateArithToLLVMConversionPatterns(typeConverter, patterns);
   cf::populateControlFlowToLLVMConversionPatterns(typeConverter, patterns);
+  // Checks generated by --enable-bound-check.
+  cf::populateAssertToLLVMConversionPattern(typeConverter, patterns);
 
   krnl::populateKrnlToLLVMConversion(typeConverter, patterns, ctx,
       constantOutputs, singleEntryPoint, entryGlobalOps, inSigGlobalOps,
-- 
2.43.0


From 312c6b48c94890f52d820cdf0b2d5dc3feb57c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 095/113] fix: --instrument-ops=ALL instrumented the function
 itself

---
 src/Transform/InstrumentPass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Transform/InstrumentPass.cpp b/src/Transform/InstrumentPass.cpp
index 7422f7e..4b01a10 100644
--- a/src/Transform/InstrumentPass.cpp
+++ b/src/Transform/InstrumentPass.cpp
@@ -148,6 +148,9 @@ public:
           Location loc = op->getLoc();
           OpBuilder opBuilder(op);
 
+          // Skip the function itself: nothing can be emitted around it.
+          if (op == getOperation())
+            return WalkResult::advance();
           if (op->getNumResults() == 1 &&
               isa<NoneType>(op->getResult(0).getType()))
             return WalkResult::advance();
-- 
2.43.0


From 4dba9849a9d624516007aeec62c89ba6e83fd209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 096/113] fix: static decomposition left ReduceLogSum,
 ReduceLogSumExp and ReduceSumSquare of opset 13

---
 src/Dialect/ONNX/Transforms/Decompose.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Dialect/ONNX/Transforms/Decompose.cpp b/src/Dialect/ONNX/Transforms/Decompose.cpp
index 1f6970a..c5e831b 100644
--- a/src/Dialect/ONNX/Transforms/Decompose.cpp
+++ b/src/Dialect/ONNX/Transforms/Decompose.cpp
@@ -1660,10 +1660,13 @@ void DecomposeONNXToONNXPass::runOnOperation() {
   target.addIllegalOp<ONNXReduceL2Op>();
   target.addIllegalOp<ONNXReduceL2V13Op>();
   target.addIllegalOp<ONNXReduceLogSumExpOp>();
+  target.addIllegalOp<ONNXReduceLogSumExpV13Op>();
   target.addIllegalOp<ONNXReduceLogSumOp>();
+  target.addIllegalOp<ONNXReduceLogSumV13Op>();
   target.addIllegalOp<ONNXReduceMaxV18Op>();
   target.addIllegalOp<ONNXReduceMinV18Op>();
   target.addIllegalOp<ONNXReduceSumSquareOp>();
+  target.addIllegalOp<ONNXReduceSumSquareV13Op>();
   target.addIllegalOp<ONNXResizeV10Op>();
   target.addIllegalOp<ONNXResizeV11Op>();
   target.addIllegalOp<ONNXResizeV13Op>();
-- 
2.43.0


From 54508f7ef9a76115bbcdf2283eea1fb6c9b5e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 097/113] fix: import truncated dimensions to 32 bits

---
 src/Builder/FrontendDialectTransformer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index f6570a5..a0bd15a 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -308,7 +308,7 @@ private:
     for (int i = 0; i < shape_proto.dim_size(); i++) {
       if (shape_proto.dim()[i].dim_value()) {
         // Dim is a constant value.
-        int dim_numeric_size = shape_proto.dim()[i].dim_value();
+        int64_t dim_numeric_size = shape_proto.dim()[i].dim_value();
         assert(dim_numeric_size != 0 &&
                "Parsed an tensor with a dimension size of zero");
         if (dim_numeric_size > 0) {
-- 
2.43.0


From 6e3109b39488999fbe50c01c1d8432bb2a0a19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:15 +0000
Subject: [PATCH 098/113] fix: GridSample read outside its input where the grid
 points outside

---
 src/Conversion/ONNXToKrnl/NN/GridSample.cpp | 49 ++++++++++-----------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/NN/GridSample.cpp b/src/Conversion/ONNXToKrnl/NN/GridSample.cpp
index 05ee170..fb00f57 100644
--- a/src/Conversion/ONNXToKrnl/NN/GridSample.cpp
+++ b/src/Conversion/ONNXToKrnl/NN/GridSample.cpp
@@ -71,6 +71,15 @@ static Value isInBounds(
   return math.andi(geZero, leSize);
 }
 
+// Convert coordinate to an index, clamped to [0, size-1].
+static Value clampToIndex(MathBuilder &math, Value coord, Value size) {
+  Type floatType = coord.getType();
+  Value zero = math.constant(floatType, 0.0);
+  Value one = math.constant(floatType, 1.0);
+  Value sizeMinus1 = math.sub(math.cast(floatType, size), one);
+  return math.castToIndex(math.min(math.max(coord, zero), sizeMinus1));
+}
+
 // Helper to load value with padding mode handling (2D case).
 // Returns zero for out-of-bounds (zeros mode) or clamped value (border mode).
 static Value loadWithPadding(const KrnlBuilder &createKrnl, MathBuilder &math,
@@ -101,8 +110,9 @@ static Value loadWithPadding(const KrnlBuilder &createKrnl, MathBuilder &math,
     // Zeros padding: check bounds and return zero if out of bounds.
     Value inBounds = math.andi(
         isInBounds(math, loc, xCoord, W), isInBounds(math, loc, yCoord, H));
-    Value xIdx = math.castToIndex(xCoord);
-    Value yIdx = math.castToIndex(yCoord);
+    // The value is loaded in any case: load it from within the input.
+    Value xIdx = clampToIndex(math, xCoord, W);
+    Value yIdx = clampToIndex(math, yCoord, H);
 
     // Build full index array.
     SmallVector<Value, 4> fullIndices(indices.begin(), indices.end());
@@ -150,9 +160,10 @@ static Value loadWithPadding3D(const KrnlBuilder &createKrnl, MathBuilder &math,
     Value inBounds = math.andi(math.andi(isInBounds(math, loc, xCoord, W),
                                    isInBounds(math, loc, yCoord, H)),
         isInBounds(math, loc, zCoord, D));
-    Value xIdx = math.castToIndex(xCoord);
-    Value yIdx = math.castToIndex(yCoord);
-    Value zIdx = math.castToIndex(zCoord);
+    // The value is loaded in any case: load it from within the input.
+    Value xIdx = clampToIndex(math, xCoord, W);
+    Value yIdx = clampToIndex(math, yCoord, H);
+    Value zIdx = clampToIndex(math, zCoord, D);
 
     // Build full index array.
     SmallVector<Value, 5> fullIndices(indices.begin(), indices.end());
@@ -255,26 +266,12 @@ static void computeBilinearSamplingPlan(const KrnlBuilder &createKrnl,
   createKrnl.store(w21, weightsAlloc, {h_out, w_out, math.constantIndex(2)});
   createKrnl.store(w22, weightsAlloc, {h_out, w_out, math.constantIndex(3)});
 
-  // Handle coordinates based on padding mode.
-  if (paddingMode == "border") {
-    // Clamp coordinates to [0, size-1].
-    Value zeroFloat = math.constant(elementType, 0.0);
-    Value hFloat = math.cast(elementType, H);
-    Value wFloat = math.cast(elementType, W);
-    Value hMax = math.sub(hFloat, one);
-    Value wMax = math.sub(wFloat, one);
-
-    x0 = math.min(math.max(x0, zeroFloat), wMax);
-    x1 = math.min(math.max(x1, zeroFloat), wMax);
-    y0 = math.min(math.max(y0, zeroFloat), hMax);
-    y1 = math.min(math.max(y1, zeroFloat), hMax);
-  }
-
-  // Convert to indices.
-  Value x0_idx = math.castToIndex(x0);
-  Value x1_idx = math.castToIndex(x1);
-  Value y0_idx = math.castToIndex(y0);
-  Value y1_idx = math.castToIndex(y1);
+  // Convert to indices. The values are loaded in any case (the mask is applied
+  // afterwards): load them from within the input.
+  Value x0_idx = clampToIndex(math, x0, W);
+  Value x1_idx = clampToIndex(math, x1, W);
+  Value y0_idx = clampToIndex(math, y0, H);
+  Value y1_idx = clampToIndex(math, y1, H);
 
   // Store indices in HxWx4 array.
   createKrnl.store(x0_idx, indicesAlloc, {h_out, w_out, math.constantIndex(0)});
@@ -314,7 +311,7 @@ static void computeBilinearSamplingPlan(const KrnlBuilder &createKrnl,
     // Store mask in HxW array.
     createKrnl.store(mask, maskAlloc, {h_out, w_out});
   }
-  // For border mode: no mask needed, coordinates are clamped.
+  // For border mode: no mask needed, indices are clamped.
 }
 
 // Optimized bilinear interpolation using precomputed sampling plan.
-- 
2.43.0


From 6c426189662302f196c5f461437642ade70f052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:00 +0000
Subject: [PATCH 099/113] fix: branches of If knowing more or less of the shape
 than the result

---
 src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
index df6b03b..e31f6be 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Yield.cpp
@@ -35,11 +35,20 @@ struct ONNXYieldOpLowering : public OpConversionPattern<ONNXYieldOp> {
 
     ValueRange inputs = yieldOp.getOperands();
     llvm::SmallVector<Value> outputs;
-    for (Value input : inputs) {
+    auto ifOp = mlir::dyn_cast<scf::IfOp>(op->getParentOp());
+    for (auto [i, input] : llvm::enumerate(inputs)) {
       Type inputType = input.getType();
       Type outputType = typeConverter->convertType(inputType);
-      outputs.emplace_back(typeConverter->materializeTargetConversion(
-          rewriter, loc, outputType, input));
+      Value output = typeConverter->materializeTargetConversion(
+          rewriter, loc, outputType, input);
+      // A branch may know more (or less) of the shape than the result does.
+      if (ifOp && i < ifOp.getNumResults()) {
+        Type resultType = ifOp.getResult(i).getType();
+        if (resultType != outputType &&
+            memref::CastOp::areCastCompatible(outputType, resultType))
+          output = memref::CastOp::create(rewriter, loc, resultType, output);
+      }
+      outputs.emplace_back(output);
     }
 
     rewriter.replaceOpWithNewOp<scf::YieldOp>(yieldOp, outputs);
-- 
2.43.0


From 3e6b498d2d427dc20403d0a300f83911a8626bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:00 +0000
Subject: [PATCH 100/113] fix: crash on Loop without maximum trip count

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 1c8ff71..8a90c11 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -799,7 +799,7 @@ private:
   // A helper function to check whether a value is defined by ONNXConstantOp in
   // the same block or not.
   bool isDefinedByIntegerConstantOp(Value v) const {
-    if (mlir::isa<BlockArgument>(v))
+    if (mlir::isa<BlockArgument>(v) || !mlir::isa<ShapedType>(v.getType()))
       return false;
     if (mlir::isa<IntegerType>(
             mlir::cast<ShapedType>(v.getType()).getElementType()) &&
-- 
2.43.0


From dc984e6d487f161fd2339f0dcfa98bdf43074845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:00 +0000
Subject: [PATCH 101/113] fix: lowering of Loop without condition or trip
 count, exchanged carried values, no iteration of while loops

---
 .../ONNXToKrnl/ControlFlow/Loop.cpp           | 76 ++++++++++++-------
 .../ONNXToKrnl/ONNXToKrnlCommon.cpp           | 25 ++++++
 .../ONNXToKrnl/ONNXToKrnlCommon.hpp           | 11 +++
 3 files changed, 83 insertions(+), 29 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
index f236167..6f81fcb 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Loop.cpp
@@ -76,19 +76,24 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       }
     }
 
-    // Convert the cond type to MemRefType.
-    Type convertedType =
-        typeConverter->convertType(adaptor.getCond().getType());
-    assert(convertedType && mlir::isa<MemRefType>(convertedType) &&
-           "Failed to convert type to MemRefType");
-    MemRefType condMemRefTy = mlir::cast<MemRefType>(convertedType);
-
     // Create a memref for recording loop condition, initialize it with the
-    // initial loop condition.
+    // initial loop condition (true when there is none).
     Value cond;
-    if (hasAllConstantDimensions(condMemRefTy))
-      cond = create.mem.alignedAlloc(condMemRefTy);
-    emitCopy(rewriter, loc, adaptor.getCond(), cond);
+    if (isNoneValue(loopOp.getCond())) {
+      cond = create.mem.alloc(MemRefType::get({}, rewriter.getI1Type()));
+      create.krnl.store(
+          create.math.constant(rewriter.getI1Type(), 1), cond);
+    } else {
+      // Convert the cond type to MemRefType.
+      Type convertedType =
+          typeConverter->convertType(adaptor.getCond().getType());
+      assert(convertedType && mlir::isa<MemRefType>(convertedType) &&
+             "Failed to convert type to MemRefType");
+      MemRefType condMemRefTy = mlir::cast<MemRefType>(convertedType);
+      if (hasAllConstantDimensions(condMemRefTy))
+        cond = create.mem.alignedAlloc(condMemRefTy);
+      emitCopy(rewriter, loc, adaptor.getCond(), cond);
+    }
 
     // Create the loop iteration.
     IndexExprScope childScope(&rewriter, loc);
@@ -124,7 +129,8 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
           createKrnl.store(iv, ivMemRef);
 
           // Make the call to loop body function.
-          SmallVector<Value, 4> params = {ivMemRef, adaptor.getCond()};
+          SmallVector<Value, 4> params = {ivMemRef,
+              isNoneValue(loopOp.getCond()) ? cond : adaptor.getCond()};
 
           // For SeqType, load the value for the storage
           for (unsigned long i = 0; i < loopOp.getVInitial().size(); i++) {
@@ -234,6 +240,11 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
           // Copy intermediate values of loop carried dependencies to MemRef
           // outside the iteration scope so next iteration can use them as init
           // value.
+          saveCarriedValues(rewriter, loc, resultsRange, outputs,
+              /*first=*/1, loopOp.getVInitial().size(), bodyOutputs,
+              [&](Value src, Value dest) {
+                emitCopy(rewriter, loc, src, dest);
+              });
           for (unsigned long i = 0; i < loopOp.getVInitial().size(); i++) {
             if (mlir::isa<SeqType>(loopOp.getVInitial()[i].getType())) {
               create.krnl.store(bodyOutputs[i + 1], outputs[i], zero);
@@ -536,13 +547,14 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
     Value c0 = create.math.constant(rewriter.getI64Type(), 0);
     Value c1 = create.math.constant(rewriter.getI64Type(), 1);
     Value ubV;
+    // The iteration number is an argument of the loop body in any case.
+    Value mInitial = c0;
+    whileInputValues.emplace_back(mInitial);
+    whileInputTypes.emplace_back(mInitial.getType());
+    locs.emplace_back(loc);
     if (!isNoneValue(loopOp.getM())) {
       hasM = true;
-      Value mInitial = c0;
-      whileInputValues.emplace_back(mInitial);
-      whileInputTypes.emplace_back(mInitial.getType());
       ubV = create.krnl.load(adaptor.getM());
-      locs.emplace_back(loc);
     }
 
     if (!isNoneValue(loopOp.getCond())) {
@@ -565,6 +577,12 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
     // Need to handle the scan out specially because the trip count cannot
     // be expressed for a while loop
     allocateMemoryForScanOutput(loc, rewriter, op, adaptor, outputs, true);
+    // Without any iteration, the final values are the initial ones.
+    for (auto [vInit, output] : llvm::zip(adaptor.getVInitial(), outputs))
+      if (mlir::isa<MemRefType>(vInit.getType()) &&
+          !mlir::isa<MemRefType>(
+              mlir::cast<MemRefType>(vInit.getType()).getElementType()))
+        emitCopy(rewriter, loc, vInit, output);
     SmallVector<Type, 4> outputTypes;
     for (auto v : outputs) {
       outputTypes.emplace_back(v.getType());
@@ -585,11 +603,10 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       auto arguments = beforeBlock->getArguments();
       rewriter.setInsertionPointToStart(&whileOp.getBefore().front());
       Value mCond;
-      int argIndex = 0;
+      int argIndex = 1;
       if (hasM) {
-        auto iv = beforeBlock->getArgument(argIndex);
+        auto iv = beforeBlock->getArgument(0);
         mCond = create.math.slt(iv, ubV);
-        argIndex++;
       }
 
       Value condV;
@@ -630,12 +647,10 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       int argIndex = 0;
       // Create a scalar tensor out of loop iteration variable, as the first
       // argument passed to the body graph function.
-      if (hasM) {
-        Value iv = afterBlock->getArgument(argIndex);
-        create.krnl.store(iv, ivMemRef);
-        params.emplace_back(ivMemRef);
-        argIndex++;
-      }
+      Value iv = afterBlock->getArgument(argIndex);
+      create.krnl.store(iv, ivMemRef);
+      params.emplace_back(ivMemRef);
+      argIndex++;
 
       for (auto v :
           llvm::make_range(afterBlock->getArguments().begin() + argIndex,
@@ -740,6 +755,11 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       // Copy intermediate values of loop carried dependencies to MemRef
       // outside the iteration scope so next iteration can use them as init
       // value.
+      SmallVector<Value, 4> carried(
+          params.begin() + 2, params.begin() + 2 + adaptor.getVInitial().size());
+      saveCarriedValues(rewriter, loc, resultsRange, carried,
+          /*first=*/1, adaptor.getVInitial().size(), bodyOutputs,
+          [&](Value src, Value dest) { emitCopy(rewriter, loc, src, dest); });
       for (auto vIntermediateToFinal : llvm::zip(vIntermediate, outputs))
         emitCopy(rewriter, loc, std::get<0>(vIntermediateToFinal),
             std::get<1>(vIntermediateToFinal));
@@ -756,10 +776,8 @@ struct ONNXLoopOpLowering : public OpConversionPattern<ONNXLoopOp> {
       SmallVector<Value> yieldList;
       // Add the IV for WhileOp, which is not explicitly in the output
       // of loop body of LoopOp
-      if (hasM) {
-        Value newIV = create.math.add(afterBlock->getArgument(0), c1);
-        yieldList.emplace_back(newIV);
-      }
+      Value newIV = create.math.add(afterBlock->getArgument(0), c1);
+      yieldList.emplace_back(newIV);
       if (hasCond) {
         yieldList.emplace_back(cond);
       }
diff --git a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
index f32c04e..dfa5b7e 100644
--- a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
+++ b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.cpp
@@ -1113,4 +1113,29 @@ void genSafeCodeForGatherAlike(mlir::ConversionPatternRewriter &rewriter,
       });
 }
 
+void saveCarriedValues(ConversionPatternRewriter &rewriter, const Location &loc,
+    ArrayRef<Value> bodyResults, ArrayRef<Value> storages, int64_t first,
+    int64_t numCarried, SmallVectorImpl<Value> &bodyOutputs,
+    function_ref<void(Value, Value)> copy) {
+  for (int64_t i = 1; i < numCarried; ++i) {
+    auto type = mlir::dyn_cast<MemRefType>(bodyOutputs[first + i].getType());
+    if (!type || mlir::isa<MemRefType>(type.getElementType()))
+      continue;
+    Value root = bodyResults[first + i];
+    while (Operation *defOp = root.getDefiningOp()) {
+      if (!isa<ONNXFlattenOp, ONNXIdentityOp, ONNXReshapeOp, ONNXSqueezeOp,
+              ONNXUnsqueezeOp>(defOp))
+        break;
+      root = defOp->getOperand(0);
+    }
+    if (!llvm::is_contained(storages.take_front(i), root) &&
+        !root.getDefiningOp<ONNXIfOp>())
+      continue;
+    MultiDialectBuilder<MemRefBuilder> create(rewriter, loc);
+    Value saved = create.mem.alignedAlloc(bodyOutputs[first + i], type);
+    copy(bodyOutputs[first + i], saved);
+    bodyOutputs[first + i] = saved;
+  }
+}
+
 } // namespace onnx_mlir
diff --git a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
index 8a2ee1a..cc72eab 100644
--- a/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
+++ b/src/Conversion/ONNXToKrnl/ONNXToKrnlCommon.hpp
@@ -116,6 +116,17 @@ void addDimensionToPack(mlir::ConversionPatternRewriter &rewriter,
 void defineLoops(mlir::ConversionPatternRewriter &rewriter, mlir::Location loc,
     std::vector<mlir::Value> &loops, int64_t numLoops);
 
+// The values computed by the body of a loop (bodyResults before, bodyOutputs
+// after conversion, from position `first` on) are copied one after the other
+// into the storages of the loop carried dependencies. A value that is (a view
+// of) the storage of an earlier loop carried dependency is overwritten before
+// its turn comes: copy such values beforehand.
+void saveCarriedValues(mlir::ConversionPatternRewriter &rewriter,
+    const mlir::Location &loc, mlir::ArrayRef<mlir::Value> bodyResults,
+    mlir::ArrayRef<mlir::Value> storages, int64_t first, int64_t numCarried,
+    mlir::SmallVectorImpl<mlir::Value> &bodyOutputs,
+    mlir::function_ref<void(mlir::Value, mlir::Value)> copy);
+
 /// Get a dimension value from a memref. Emit a constant if the dimension is
 /// constant. Otherwise, emit a dim op.
 /// If the return type is different from IndexType, emit a cast op to cast the
-- 
2.43.0


From b6ebf13abc9caeae332cc0d808f7ac026ab4904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:21 +0000
Subject: [PATCH 102/113] fix: lowering of Scan: loops in its body, exchanged
 states, states given out

---
 .../ONNXToKrnl/ControlFlow/Scan.cpp           | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
index 1294d81..35a3485 100644
--- a/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
+++ b/src/Conversion/ONNXToKrnl/ControlFlow/Scan.cpp
@@ -66,12 +66,17 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
     pack.pushOperandBound(maxTripCount);
     KrnlBuilder createKrnl(rewriter, loc);
     KrnlIterateOp iterateOp = createKrnl.iterate(pack);
-    Block &iterationBlock = iterateOp.getBodyRegion().front();
+    Block &iterateBlock = iterateOp.getBodyRegion().front();
+    rewriter.setInsertionPointToStart(&iterateBlock);
+    // Contain the body with KrnlRegionOp: the krnl loops inside may use symbols
+    // computed in the scan body.
+    KrnlRegionOp regionOp = KrnlRegionOp::create(rewriter, loc);
+    Block &iterationBlock = regionOp.getBodyRegion().front();
     rewriter.setInsertionPointToStart(&iterationBlock);
 
     {
       OpBuilder::InsertionGuard insertGuard(rewriter);
-      Value iv = *iterationBlock.getArguments().begin();
+      Value iv = *iterateBlock.getArguments().begin();
 
       // Initialize scan body function parameter to be all the
       // loop-carried dependencies.
@@ -109,11 +114,10 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
       Region &loopBodyRegion = *loopBodyBlock->getParent();
 
       // Split the insertion block into two, where the second block
-      // `postInsertBlock` contains only the terminator operation, insert scan
+      // `postInsertBlock` is empty (KrnlRegionOp has no terminator), insert scan
       // body right before `postInsertBlock`, after all other operations
-      // created within the if Op.
-      Block *postInsertBlock =
-          loopBodyBlock->splitBlock(loopBodyBlock->getTerminator());
+      // created so far.
+      Block *postInsertBlock = loopBodyBlock->splitBlock(loopBodyBlock->end());
       assert(scanBody.getBlocks().size() == 1 &&
              "Currently only support scan body with 1 block.");
       loopBodyRegion.getBlocks().splice(
@@ -156,14 +160,8 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
                              .getResult(0);
       }
 
-      // Copy intermediate values of scan carried dependencies to MemRef
-      // outside the iteration scope so next iteration can have use them as
-      // init value.
       auto vIntermediate = llvm::make_range(bodyOutputs.begin(),
           bodyOutputs.begin() + scanOp.getVInitial().size());
-      for (auto vIntermediateToFinal : llvm::zip(vIntermediate, outputs))
-        emitCopy(rewriter, loc, std::get<0>(vIntermediateToFinal),
-            std::get<1>(vIntermediateToFinal));
 
       // Copy intermediate values of scan outputs to their corresponding slice
       // in the scan scan output tensor.
@@ -177,6 +175,16 @@ struct ONNXScanOpLowering : public OpConversionPattern<ONNXScanOp> {
             std::get<1>(scanIntermediateToFinal),
             /*writePrefix=*/{iv});
 
+      // Copy intermediate values of scan carried dependencies to MemRef
+      // outside the iteration scope so next iteration can have use them as
+      // init value.
+      saveCarriedValues(rewriter, loc, resultsRange, outputs, /*first=*/0,
+          scanOp.getVInitial().size(), bodyOutputs,
+          [&](Value src, Value dest) { emitCopy(rewriter, loc, src, dest); });
+      for (auto vIntermediateToFinal : llvm::zip(vIntermediate, outputs))
+        emitCopy(rewriter, loc, std::get<0>(vIntermediateToFinal),
+            std::get<1>(vIntermediateToFinal));
+
       // Remove scan body terminator op.
       rewriter.eraseOp(scanBodyTerminator);
 
-- 
2.43.0


From 10d746b04dc88ada3be087ecb80918e40e951b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:21 +0000
Subject: [PATCH 103/113] fix: signatures of types and names outside a list
 were no JSON

---
 .../ONNXToKrnl/ConvertONNXToKrnl.cpp          | 43 +++++++------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/ConvertONNXToKrnl.cpp b/src/Conversion/ONNXToKrnl/ConvertONNXToKrnl.cpp
index f3c493b..a94ab9e 100644
--- a/src/Conversion/ONNXToKrnl/ConvertONNXToKrnl.cpp
+++ b/src/Conversion/ONNXToKrnl/ConvertONNXToKrnl.cpp
@@ -17,6 +17,7 @@
 #include "mlir/Dialect/SCF/IR/SCF.h"
 #include "mlir/Dialect/Shape/IR/Shape.h"
 #include "mlir/Dialect/Vector/IR/VectorOps.h"
+#include "llvm/Support/JSON.h"
 
 #include "src/Accelerators/Accelerator.hpp"
 #include "src/Builder/ModelInputShaper.hpp"
@@ -36,9 +37,6 @@ class ONNXEntryPointLowering : public OpRewritePattern<ONNXEntryPointOp> {
 public:
   using OpRewritePattern<ONNXEntryPointOp>::OpRewritePattern;
 
-  // A type mapping used to generate a signature in JSON.
-  static std::map<std::string, std::string> typeMap;
-
   LogicalResult matchAndRewrite(
       ONNXEntryPointOp op, PatternRewriter &rewriter) const override {
     ModuleOp module = op.getOperation()->getParentOfType<ModuleOp>();
@@ -67,6 +65,18 @@ public:
   }
 
 private:
+  // A JSON string. The input and output signatures are kept in one string where
+  // '@' separates them, so that '@' is escaped too.
+  static std::string quote(StringRef str) {
+    std::string result;
+    llvm::raw_string_ostream stream(result);
+    stream << llvm::json::Value(llvm::json::fixUTF8(str));
+    stream.flush();
+    for (size_t pos = 0; (pos = result.find('@', pos)) != std::string::npos;)
+      result.replace(pos, 1, "\\u0040");
+    return result;
+  }
+
   // Construct JSON type from the argument type.
   // for example - a 3D array of f32 would produce something like
   //     {"type" : "f32" , "dims" : [4, 256, 16] , "name": "t1"}
@@ -93,7 +103,7 @@ private:
             // Use just "string" for brief
             dstream << "\"string\"";
           } else {
-            et.print(dstream);
+            dstream << "\"" << et << "\"";
           }
           dstream << " , \"dims\" : [";
           if (tensorTy.hasRank()) {
@@ -109,7 +119,7 @@ private:
           }
           dstream << "] ";
           auto name = mlir::cast<mlir::StringAttr>(attr).getValue().str();
-          dstream << ", \"name\" : \"" << name << "\"";
+          dstream << ", \"name\" : " << quote(name);
         })
         .Default([&](Type type) { llvm_unreachable("input is not a tensor"); });
     dstream << " }\n";
@@ -162,33 +172,10 @@ private:
     dstream << "\n]";
     dstream.flush();
     dString.push_back('\0'); // null terminate the output signature string
-    for (auto const &x : typeMap) {
-      size_t start_pos = 0;
-      while (
-          (start_pos = dString.find(x.first, start_pos)) != std::string::npos) {
-        dString.replace(start_pos, x.first.length(), x.second);
-        start_pos += x.first.length();
-      }
-    }
-
     return dString;
   }
 };
 
-std::map<std::string, std::string> ONNXEntryPointLowering::typeMap = {
-    {std::string(" f16 "), std::string(" \"f16\" ")},
-    {std::string(" f32 "), std::string(" \"f32\" ")},
-    {std::string(" f64 "), std::string(" \"f64\" ")},
-    {std::string(" i32 "), std::string(" \"i32\" ")},
-    {std::string(" i64 "), std::string(" \"i64\" ")},
-    {std::string(" i16 "), std::string(" \"i16\" ")},
-    {std::string(" i8 "), std::string(" \"i8\" ")},
-    {std::string(" i1 "), std::string(" \"i1\" ")},
-    {std::string(" ui32 "), std::string(" \"ui32\" ")},
-    {std::string(" ui64 "), std::string(" \"ui64\" ")},
-    {std::string(" ui16 "), std::string(" \"ui16\" ")},
-    {std::string(" ui8 "), std::string(" \"ui8\" ")}};
-
 void populateLoweringONNXEntryPointOpPattern(
     RewritePatternSet &patterns, MLIRContext *ctx) {
   patterns.insert<ONNXEntryPointLowering>(ctx);
-- 
2.43.0


From 0a1e79414068b3b73cf0592539165ad657cd8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:01 +0000
Subject: [PATCH 104/113] fix: dimension names of an output were given to an
 output before it

---
 src/Builder/FrontendDialectTransformer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index a0bd15a..642e899 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -588,8 +588,7 @@ private:
     for (const auto &output : graph.output()) {
       std::string dimParams = "";
       ImportOutputTensor(output, retTys, retVals, &dimParams);
-      if (!dimParams.empty())
-        outputDimParams.emplace_back(dimParams);
+      outputDimParams.emplace_back(dimParams);
     }
 
     if (useReturn)
-- 
2.43.0


From 4cd2861a44b53767c4fd32754ddf070296909d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:56 +0000
Subject: [PATCH 105/113] fix: dimension names that are empty or have commas

---
 src/Builder/FrontendDialectTransformer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 642e899..d2781f6 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -317,13 +317,19 @@ private:
           // If dim_value < 0, then dim is parametric.
           dims.push_back(ShapedType::kDynamic);
         }
-      } else if (dim_params && shape_proto.dim()[i].has_dim_param()) {
+      } else if (dim_params && !shape_proto.dim()[i].dim_param().empty()) {
         // Dim is unknown but assigned a string ID that can be used to check
         // equality between unknown dimensions.
         if (!dim_params->empty())
           *dim_params += ",";
-        *dim_params +=
-            std::to_string(i) + ":" + shape_proto.dim()[i].dim_param();
+        *dim_params += std::to_string(i) + ":";
+        // Keep the comma for separating.
+        for (char c : shape_proto.dim()[i].dim_param()) {
+          if (c == ',' || c == '\\')
+            *dim_params += (c == ',') ? "\\c" : "\\b";
+          else
+            *dim_params += c;
+        }
         dims.push_back(ShapedType::kDynamic);
       } else {
         dims.push_back(ShapedType::kDynamic);
-- 
2.43.0


From ec25f0f35538b09f0ca4a926a31706b684a7bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:19 +0000
Subject: [PATCH 106/113] fix: dimension analysis of Expand ignored the shape
 of its input

Expand broadcasts its input with the shape, so a dimension of the result
is that of the shape only where the input has none or 1.
---
 src/Dialect/ONNX/ONNXDimAnalysis.cpp | 41 ++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXDimAnalysis.cpp b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
index f22e684..ce3d59b 100644
--- a/src/Dialect/ONNX/ONNXDimAnalysis.cpp
+++ b/src/Dialect/ONNX/ONNXDimAnalysis.cpp
@@ -422,6 +422,26 @@ static bool exploreSameDimsUsingShapeHelper(const DimAnalysis::DimT &dim,
   return true;
 }
 
+/// Given an output dimension of Expand, return the index of the element in
+/// `shape` that defines it, or -1 if there is none. Expand broadcasts its input
+/// with `shape` (aligned at the right), so that `shape` defines a dimension only
+/// if the input does not have that dimension or it is 1 there. With `greaterOne`,
+/// the element is known to be greater than 1 and always defines the dimension.
+static int64_t getShapeIndexOfExpand(
+    ONNXExpandOp op, int64_t outputDimIndex, bool greaterOne = false) {
+  if (!hasShapeAndRank(op.getInput()) || !hasShapeAndRank(op.getResult()) ||
+      !hasStaticShape(op.getShape().getType()))
+    return -1;
+  ArrayRef<int64_t> inputShape = getShape(op.getInput().getType());
+  int64_t outputRank = getRank(op.getResult().getType());
+  int64_t shapeSize = getShape(op.getShape().getType(), 0);
+  int64_t inputIndex =
+      outputDimIndex - (outputRank - (int64_t)inputShape.size());
+  if (!greaterOne && inputIndex >= 0 && inputShape[inputIndex] != 1)
+    return -1;
+  return outputDimIndex - (outputRank - shapeSize);
+}
+
 // clang-format off
 /// Given a dynamic dimension in the output, find the same dynamic dimensions in
 /// the inputs. This function is used for operations whose one of the input
@@ -484,7 +504,11 @@ static bool exploreSameDimsUsingShapeInput(const DimAnalysis::DimT &dim,
     shapeInput = onnxOp.getInput();
   } else if (auto onnxOp = mlir::dyn_cast<ONNXExpandOp>(op)) {
     // `shape` stores shape information.
-    shapeInput = onnxOp.getShape();
+    int64_t shapeIndex = getShapeIndexOfExpand(onnxOp, outputDimIndex);
+    if (shapeIndex >= 0) {
+      inputDimIndex = shapeIndex;
+      shapeInput = onnxOp.getShape();
+    }
   } else if (auto onnxOp = mlir::dyn_cast<ONNXMaxUnpoolOp>(op)) {
     // Optional `output_shape` stores shape information.
     if (!isNoneValue(onnxOp.getOutputShape()))
@@ -1483,14 +1507,17 @@ void DimAnalysis::visitDimForOffsets(DimT &dim) const {
 
   // Special case: ONNXExpandOp with Add(Dim, Constant) in shape input.
   if (auto expandOp = mlir::dyn_cast<ONNXExpandOp>(op)) {
+    int64_t shapeIndex =
+        getShapeIndexOfExpand(expandOp, dimIndex, /*greaterOne=*/true);
+    bool definedByShape = getShapeIndexOfExpand(expandOp, dimIndex) >= 0;
     if (auto concatOp = expandOp.getShape().getDefiningOp<ONNXConcatOp>()) {
       int64_t currentIndex = 0;
       for (Value shapeInput : concatOp.getInputs()) {
         int64_t numElements =
             mlir::cast<ShapedType>(shapeInput.getType()).getNumElements();
 
-        if (currentIndex <= (int64_t)dimIndex &&
-            (int64_t)dimIndex < currentIndex + numElements) {
+        if (currentIndex <= shapeIndex &&
+            shapeIndex < currentIndex + numElements) {
           Operation *shapeOp = shapeInput.getDefiningOp();
           if (auto reshapeOp = mlir::dyn_cast_or_null<ONNXReshapeOp>(shapeOp))
             shapeOp = reshapeOp.getData().getDefiningOp();
@@ -1501,6 +1528,10 @@ void DimAnalysis::visitDimForOffsets(DimT &dim) const {
 
             if (auto constOp = constValue.getDefiningOp<ONNXConstantOp>()) {
               int64_t offset = getScalarValue<int64_t>(constOp);
+              // A dimension plus a positive offset is greater than 1 unless the
+              // dimension is 0.
+              if (offset < 1 && !definedByShape)
+                return;
               if (auto squeezeOp = dimValue.getDefiningOp<ONNXSqueezeOp>())
                 dimValue = squeezeOp.getData();
               if (auto dimOp = dimValue.getDefiningOp<ONNXDimOp>()) {
@@ -1513,6 +1544,10 @@ void DimAnalysis::visitDimForOffsets(DimT &dim) const {
             } else if (auto constOp =
                            dimValue.getDefiningOp<ONNXConstantOp>()) {
               int64_t offset = getScalarValue<int64_t>(constOp);
+              // A dimension plus a positive offset is greater than 1 unless the
+              // dimension is 0.
+              if (offset < 1 && !definedByShape)
+                return;
               dimValue = constValue;
               if (auto squeezeOp = dimValue.getDefiningOp<ONNXSqueezeOp>())
                 dimValue = squeezeOp.getData();
-- 
2.43.0


From 61a4dc72624e3d5f091c30c2124c2b3586a7a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:44 +0000
Subject: [PATCH 107/113] fix: comments and line breaks in ONNX text models

The lines of the file were joined without a line break, so that a comment
commented out all that follows and tokens at the ends of lines merged.
---
 src/Builder/FrontendDialectTransformer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index d2781f6..0833441 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -1655,6 +1655,7 @@ int readAndStripComments(
                    << fname.str() << ":" << line.line_number() << "\n\n";
     }
     contents.append(*line);
+    contents.push_back('\n');
   }
   return CompilerSuccess;
 }
-- 
2.43.0


From 7e2362f84799fe4c195d50c9c363840005da30c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:14 +0000
Subject: [PATCH 108/113] fix: models that are not valid crashed the importer
 or were read past their data

The checks of external data (where the file lies, whether it is a link) were
assertions and llvm_unreachable, so that builds without assertions had none;
links in directories on the way were not seen. Data larger than the shape of
a tensor were written past its buffer, smaller ones read past their end.
Undefined names were dropped or dereferenced. Exceptions of the ONNX library
ended the process.
---
 src/Builder/FrontendDialectHelper.cpp      | 93 +++++++++++++++-------
 src/Builder/FrontendDialectTransformer.cpp | 84 ++++++++++---------
 2 files changed, 110 insertions(+), 67 deletions(-)

diff --git a/src/Builder/FrontendDialectHelper.cpp b/src/Builder/FrontendDialectHelper.cpp
index f7b3d00..eb5dd99 100644
--- a/src/Builder/FrontendDialectHelper.cpp
+++ b/src/Builder/FrontendDialectHelper.cpp
@@ -18,6 +18,8 @@
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/Support/Endian.h"
 #include "llvm/Support/FileSystem.h"
+#include "llvm/Support/ErrorHandling.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Path.h"
 #include "llvm/Support/SwapByteOrder.h"
@@ -34,37 +36,46 @@ namespace onnx_mlir {
 
 namespace {
 
+// Reports a tensor proto that cannot be imported and exits. Unlike assert and
+// llvm_unreachable it also does so in builds without assertions.
+[[noreturn]] void reportInvalidTensor(
+    const onnx::TensorProto &tp, const llvm::Twine &reason) {
+  llvm::report_fatal_error("invalid ONNX tensor \"" + llvm::Twine(tp.name()) +
+                               "\": " + reason,
+      /*gen_crash_diag=*/false);
+}
+
 // Parses unsigned number.
-size_t parseOffsetOrLength(const std::string &value) {
+size_t parseOffsetOrLength(
+    const onnx::TensorProto &tp, const std::string &value) {
   char *end = nullptr;
   size_t offsetOrLength = strtoull(value.c_str(), &end, 0);
-  assert(end != value.c_str() && "failed to parse offset or length");
+  if (end == value.c_str() || value[0] == '-')
+    reportInvalidTensor(tp, "failed to parse offset or length");
   return offsetOrLength;
 }
 
 // Reads external data from file location specified in tensor proto.
 // The data is little endian encoded.
 // See https://github.com/onnx/onnx/blob/main/docs/ExternalData.md
-//
-// TODO: having a more friendly error reporting method than an assert or
-// unreachable would be a plus.
 std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
     const std::string &externalDataDir, const onnx::TensorProto &tp) {
   std::string location;
   uint64_t offset = 0;
   uint64_t length = -1; // MemoryBuffer uses -1 to mean infinity
   for (const onnx::StringStringEntryProto &entry : tp.external_data()) {
-    assert(entry.has_key() && "external_data entry must have key");
-    assert(entry.has_value() && "external_data entry must have value");
+    if (!entry.has_key() || !entry.has_value())
+      reportInvalidTensor(tp, "external_data entry must have key and value");
     if (entry.key() == "location") {
       location = entry.value();
     } else if (entry.key() == "offset") {
-      offset = parseOffsetOrLength(entry.value());
+      offset = parseOffsetOrLength(tp, entry.value());
     } else if (entry.key() == "length") {
-      length = parseOffsetOrLength(entry.value());
+      length = parseOffsetOrLength(tp, entry.value());
     }
   }
-  assert(!location.empty() && "missing external data location");
+  if (location.empty())
+    reportInvalidTensor(tp, "missing external data location");
 
   // ONNX external data spec
   // (https://github.com/onnx/onnx/blob/main/docs/ExternalData.md): "file path
@@ -74,7 +85,7 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
   if (llvm::sys::path::is_absolute(location)) {
     llvm::errs() << "Error: external data location \"" << location
                  << "\" must be a relative path.\n";
-    llvm_unreachable("external data location is an absolute path");
+    reportInvalidTensor(tp, "external data location is an absolute path");
   }
   for (auto it = llvm::sys::path::begin(location),
             end = llvm::sys::path::end(location);
@@ -82,24 +93,29 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
     if (*it == "..") {
       llvm::errs() << "Error: external data location \"" << location
                    << "\" contains up-directory component '..'.\n";
-      llvm_unreachable("external data location contains '..'");
+      reportInvalidTensor(tp, "external data location contains '..'");
     }
   }
 
-  SmallVector<char> path(externalDataDir.begin(), externalDataDir.end());
-  llvm::sys::path::append(path, location);
-  std::string pathStr(path.data(), path.size());
-
   // TODO: Remove after onnx 1.21.0 update (see
   // https://github.com/onnx/onnx-mlir/issues/3455).
-  // Reject symlinks in external data files to prevent path traversal attacks
-  // (CVE-2026-27489).
-  if (llvm::sys::fs::is_symlink_file(pathStr)) {
-    llvm::errs() << "Error: external data file " << pathStr
-                 << " is a symlink, which is not allowed for security "
-                    "reasons.\n";
-    llvm_unreachable("external data file is a symlink");
+  // Reject symlinks in external data files, and in the directories on the way
+  // to them, to prevent path traversal attacks (CVE-2026-27489).
+  SmallVector<char> path(externalDataDir.begin(), externalDataDir.end());
+  for (auto it = llvm::sys::path::begin(location),
+            end = llvm::sys::path::end(location);
+       it != end; ++it) {
+    llvm::sys::path::append(path, *it);
+    if (llvm::sys::fs::is_symlink_file(
+            StringRef(path.data(), path.size()))) {
+      llvm::errs() << "Error: external data file "
+                   << StringRef(path.data(), path.size())
+                   << " is a symlink, which is not allowed for security "
+                      "reasons.\n";
+      reportInvalidTensor(tp, "external data file is a symlink");
+    }
   }
+  std::string pathStr(path.data(), path.size());
 
   // TODO: Remove after onnx 1.21.0 update (see
   // https://github.com/onnx/onnx-mlir/issues/3455).
@@ -111,7 +127,7 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
     llvm::errs() << "Error: external data file " << pathStr
                  << " is a hardlink (link count: " << fileStat.getLinkCount()
                  << "), which is not allowed for security reasons.\n";
-    llvm_unreachable("external data file is a hardlink");
+    reportInvalidTensor(tp, "external data file is a hardlink");
   }
 
   auto bufferOrError = llvm::MemoryBuffer::getFileSlice(
@@ -119,7 +135,7 @@ std::unique_ptr<llvm::MemoryBuffer> readExternalData_LE(
   if (std::error_code ec = bufferOrError.getError()) {
     llvm::errs() << "Error " << ec.message() << " reading from file " << pathStr
                  << ", offset=" << offset << ", length=" << length << "\n";
-    llvm_unreachable("llvm::MemoryBuffer::getFileSlice failed");
+    reportInvalidTensor(tp, "llvm::MemoryBuffer::getFileSlice failed");
   }
   return std::move(bufferOrError.get());
 }
@@ -253,17 +269,25 @@ ElementsAttr createElmAttrFromProtoData(RankedTensorType tensorType,
 template <typename T>
 ElementsAttr createElmAttr(RankedTensorType tensorType,
     const onnx::TensorProto &tp, const std::string &externalDataDir) {
+  uint64_t numElements = tensorType.getNumElements();
   if (tp.has_data_location() &&
       tp.data_location() == onnx::TensorProto::EXTERNAL) {
+    auto membuf = readExternalData_LE(externalDataDir, tp);
+    if (membuf->getBufferSize() != numElements * sizeof(T))
+      reportInvalidTensor(tp, "size of external data and shape do not match");
     return createElementsAttrFromMemoryBuffer_LE<T>(
-        tensorType, readExternalData_LE(externalDataDir, tp));
+        tensorType, std::move(membuf));
   }
   if (tp.has_raw_data()) {
+    if (tp.raw_data().size() != numElements * sizeof(T))
+      reportInvalidTensor(tp, "size of raw data and shape do not match");
     return createElmAttrFromRawBytes_LE<T>(
         tensorType, asArrayRef(tp.raw_data()));
   }
   // Not raw, no need to take care of endianness.
   const auto &data = TransformValueToONNXData<T>::data(tp);
+  if ((uint64_t)data.size() != numElements)
+    reportInvalidTensor(tp, "size of data and shape do not match");
   return createElmAttrFromProtoData<T>(tensorType, data);
 }
 
@@ -273,11 +297,14 @@ ElementsAttr createStringElmAttr(
   // raw or external data, it cannot be represented as a DisposableElementsAttr,
   // and it needs to be converted to StringRef (or StringAttr) to construct a
   // DenseElementsAttr.
-  assert(!(tp.has_data_location() &&
-             tp.data_location() == onnx::TensorProto::EXTERNAL) &&
-         "string TensorProto cannot be external data");
-  assert(!tp.has_raw_data() && "string TensorProto cannot be raw data");
+  if (tp.has_data_location() &&
+      tp.data_location() == onnx::TensorProto::EXTERNAL)
+    reportInvalidTensor(tp, "string TensorProto cannot be external data");
+  if (tp.has_raw_data())
+    reportInvalidTensor(tp, "string TensorProto cannot be raw data");
   auto data = tp.string_data();
+  if (data.size() != tensorType.getNumElements())
+    reportInvalidTensor(tp, "size of data and shape do not match");
   SmallVector<StringRef> copy(data.begin(), data.end());
   return DenseElementsAttr::get(tensorType, ArrayRef(copy));
 }
@@ -288,6 +315,12 @@ ElementsAttr onnxTensorProtoToElmAttr(MLIRContext *ctx,
     const std::string &externalDataDir, const onnx::TensorProto &tp) {
   // Tensor dimensions.
   ArrayRef<int64_t> tensorDims(tp.dims().data(), tp.dims().size());
+  // Neither the number of elements nor that of bytes may overflow.
+  int64_t numElements = 1;
+  for (int64_t dim : tensorDims)
+    if (dim < 0 || llvm::MulOverflow(numElements, dim, numElements) ||
+        numElements > INT64_MAX / 16)
+      reportInvalidTensor(tp, "invalid shape");
   if (tp.data_type() == onnx::TensorProto::STRING) {
     Type elmType = ONNXStringType::get(ctx);
     auto tensorType = RankedTensorType::get(tensorDims, elmType);
diff --git a/src/Builder/FrontendDialectTransformer.cpp b/src/Builder/FrontendDialectTransformer.cpp
index 0833441..b2c0fa6 100644
--- a/src/Builder/FrontendDialectTransformer.cpp
+++ b/src/Builder/FrontendDialectTransformer.cpp
@@ -252,6 +252,11 @@ private:
 
   Value LookupOnnxName(const std::string &onnx_name) {
     const Value *valuePtr = frontend_symbols_.GetByOnnxName(onnx_name);
+    if (!valuePtr)
+      llvm::report_fatal_error("invalid ONNX model: \"" +
+                                   llvm::Twine(onnx_name) +
+                                   "\" is used but not defined",
+          /*gen_crash_diag=*/false);
     return *valuePtr;
   }
 
@@ -627,9 +632,8 @@ private:
   void ImportNodeGeneric(const onnx::NodeProto &node) {
     std::vector<Value> inputs;
     for (const auto &item : node.input()) {
-      if (const Value *valuePtr = frontend_symbols_.GetByOnnxName(item)) {
-        inputs.push_back(*valuePtr);
-      }
+      if (!item.empty())
+        inputs.push_back(LookupOnnxName(item));
     }
     OperationState result(UnknownLoc(), "frontend." + node.op_type());
     for (auto item : node.output()) {
@@ -870,9 +874,7 @@ private:
       if (item.empty()) {
         inputs.emplace_back(createNoneValue());
       } else {
-        if (const Value *valuePtr = frontend_symbols_.GetByOnnxName(item)) {
-          inputs.push_back(*valuePtr);
-        }
+        inputs.push_back(LookupOnnxName(item));
       }
     }
   }
@@ -945,9 +947,7 @@ private:
         // Optional inputs using empty string will be imported as NoneType.
         inputs.emplace_back(createNoneValue());
       } else {
-        if (const Value *valuePtr = frontend_symbols_.GetByOnnxName(item)) {
-          inputs.push_back(*valuePtr);
-        }
+        inputs.push_back(LookupOnnxName(item));
       }
     auto attributes = ImportCastAttributes(node);
     buildOutputAndOperation<ONNXCastOp>(
@@ -996,9 +996,8 @@ private:
     // Copy the provided inputs first
     std::vector<Value> inputs;
     for (const auto &item : node.input()) {
-      if (const Value *valuePtr = frontend_symbols_.GetByOnnxName(item)) {
-        inputs.push_back(*valuePtr);
-      }
+      if (!item.empty())
+        inputs.push_back(LookupOnnxName(item));
     }
 
     // If ratio is not specified, the default value is 0.5
@@ -1079,12 +1078,7 @@ private:
       // Optional inputs may be omitted.
       if (item.value().empty())
         continue;
-      if (const Value *valuePtr =
-              frontend_symbols_.GetByOnnxName(item.value())) {
-        inVals[item.index()] = *valuePtr;
-      } else {
-        assert(false && "Unknown input");
-      }
+      inVals[item.index()] = LookupOnnxName(item.value());
     }
 
     // Data input is imported but starts, ends, axes, and steps may come from
@@ -1465,8 +1459,7 @@ private:
       llvm::SmallVectorImpl<Type> &ret_types,
       llvm::SmallVectorImpl<Value> &ret_vals,
       std::string *dim_params = nullptr) {
-    const Value *valPtr = frontend_symbols_.GetByOnnxName(output.name());
-    Value val = *valPtr;
+    Value val = LookupOnnxName(output.name());
     if (output.type().value_case() == onnx::TypeProto::kTensorType) {
       Type outTy = ImportType(output.type(), dim_params);
       if (!options_.useOnnxModelTypes ||
@@ -1602,18 +1595,24 @@ bool ImportFrontendModelInternal(onnx::ModelProto &model, MLIRContext &context,
   // trouble.
   // ToFix: the shape-inference-pattern should be added and used in Importer.
 
-  // Did not do downward convert because support for BatchNorm is missing
-  if (options.invokeOnnxVersionConverter &&
-      originVersion < CURRENT_ONNX_OPSET) {
-    onnx::ModelProto convertModel =
-        onnx::version_conversion::ConvertVersion(model, CURRENT_ONNX_OPSET);
-    if (options.useOnnxModelTypes)
-      onnx::shape_inference::InferShapes(convertModel);
-    ImportFrontendModel(convertModel, context, module, options);
-  } else {
-    if (options.useOnnxModelTypes)
-      onnx::shape_inference::InferShapes(model);
-    ImportFrontendModel(model, context, module, options);
+  // The ONNX library throws on models it finds inconsistent.
+  try {
+    // Did not do downward convert because support for BatchNorm is missing
+    if (options.invokeOnnxVersionConverter &&
+        originVersion < CURRENT_ONNX_OPSET) {
+      onnx::ModelProto convertModel =
+          onnx::version_conversion::ConvertVersion(model, CURRENT_ONNX_OPSET);
+      if (options.useOnnxModelTypes)
+        onnx::shape_inference::InferShapes(convertModel);
+      ImportFrontendModel(convertModel, context, module, options);
+    } else {
+      if (options.useOnnxModelTypes)
+        onnx::shape_inference::InferShapes(model);
+      ImportFrontendModel(model, context, module, options);
+    }
+  } catch (const std::exception &e) {
+    llvm::errs() << "The ONNX model is not valid: " << e.what() << "\n";
+    return false;
   }
   return true;
 }
@@ -1629,7 +1628,10 @@ int ImportFrontendModelArray(const void *onnxBuffer, int size,
     *errorMessage = "Unable to parse onnxBuffer";
     return InvalidOnnxFormat;
   }
-  ImportFrontendModelInternal(model, context, module, options);
+  if (!ImportFrontendModelInternal(model, context, module, options)) {
+    *errorMessage = "Onnx Model Import Failed";
+    return CompilerFailure;
+  }
   return CompilerSuccess;
 }
 
@@ -1672,11 +1674,19 @@ int ImportFrontendModelFile(StringRef model_fname, MLIRContext &context,
     if (ret != CompilerSuccess)
       return ret;
 
-    onnx::OnnxParser parser(text.c_str());
-    auto status = parser.Parse(model);
-    if (!status.IsOK()) {
+    std::string parseError;
+    try {
+      onnx::OnnxParser parser(text.c_str());
+      auto status = parser.Parse(model);
+      if (!status.IsOK())
+        parseError = status.ErrorMessage();
+    } catch (const std::exception &e) {
+      // The parser throws on malformed numbers.
+      parseError = std::string("malformed text: ") + e.what();
+    }
+    if (!parseError.empty()) {
       *errorMessage = "ONNX Text Model Parsing Failed on " + model_fname.str() +
-                      " with error '" + status.ErrorMessage() + "'";
+                      " with error '" + parseError + "'";
       return InvalidOnnxFormat;
     }
   } else if (model_fname.ends_with(".json")) {
-- 
2.43.0


From 0d27d9def6962f452d1b7147f5c2efd87804293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:29 +0000
Subject: [PATCH 109/113] fix: concatenations of empty operands lost other
 operands or crashed, slices of dynamic concatenations crashed

---
 src/Dialect/ONNX/ONNXOps/Canonicalize.cpp  | 18 ++++++++++++++----
 src/Dialect/ONNX/ONNXOps/Tensor/Concat.cpp | 12 +++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
index 8a90c11..3531a9c 100644
--- a/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Canonicalize.cpp
@@ -1898,13 +1898,17 @@ struct RemoveDimZeroInputInConcatPattern
       if (shape[axis] == 0)
         indices.emplace_back(i);
     }
+    // A concat keeps at least one operand.
+    if (indices.size() == inputs.size())
+      indices.pop_back();
     if (indices.empty())
       return rewriter.notifyMatchFailure(
           concatOp, "No operand whose dim at axis is zero");
 
-    // Rewrite: remove operands whose dim at axis is zero.
+    // Rewrite: remove operands whose dim at axis is zero, from the last one on, as
+    // removing an operand moves those after it.
     rewriter.modifyOpInPlace(concatOp, [&]() {
-      for (int64_t idx : indices)
+      for (int64_t idx : llvm::reverse(indices))
         concatOp.getOperation()->eraseOperand(idx);
     });
     return success();
@@ -1931,13 +1935,17 @@ struct RemoveEmptyInputInConcatPattern : public OpRewritePattern<ONNXConcatOp> {
       if (shape.size() == 1 && shape[0] == 0)
         indices.emplace_back(i);
     }
+    // A concat keeps at least one operand.
+    if (indices.size() == inputs.size())
+      indices.pop_back();
     if (indices.empty())
       return rewriter.notifyMatchFailure(
           concatOp, "No operand whose shape is <0xdtype>");
 
-    // Rewrite: remove operands whose shape is <0xdtype>.
+    // Rewrite: remove operands whose shape is <0xdtype>, from the last one on as
+    // removing an operand moves those after it.
     rewriter.modifyOpInPlace(concatOp, [&]() {
-      for (int64_t idx : indices)
+      for (int64_t idx : llvm::reverse(indices))
         concatOp.getOperation()->eraseOperand(idx);
     });
     if (concatOp.getOperands().size() == 1)
@@ -2493,6 +2501,8 @@ public:
     }
 
     // Compute indices of interest.
+    if (!shapeHelper.starts[0].isLiteral())
+      return failure();
     int64_t start = shapeHelper.starts[0].getLiteral();
     ValueRange concatInputs = concatOp.getInputs();
     // For simplicity, expect all concat inputs to be scalar up to including
diff --git a/src/Dialect/ONNX/ONNXOps/Tensor/Concat.cpp b/src/Dialect/ONNX/ONNXOps/Tensor/Concat.cpp
index abc2e0b..ab0283b 100644
--- a/src/Dialect/ONNX/ONNXOps/Tensor/Concat.cpp
+++ b/src/Dialect/ONNX/ONNXOps/Tensor/Concat.cpp
@@ -30,7 +30,8 @@ LogicalResult ONNXConcatOpShapeHelper::computeShape() {
   ONNXConcatOp concatOp = mlir::dyn_cast<ONNXConcatOp>(op);
   ONNXConcatOpAdaptor operandAdaptor(operands);
 
-  Value firstNonEmptyInput = nullptr;
+  // When all inputs are empty, the first one stands for all of them.
+  Value firstNonEmptyInput = operands[0];
   for (Value operand : operands) {
     ArrayRef<int64_t> operandShape =
         mlir::cast<ShapedType>(operand.getType()).getShape();
@@ -39,8 +40,6 @@ LogicalResult ONNXConcatOpShapeHelper::computeShape() {
     firstNonEmptyInput = operand;
     break;
   }
-  if (firstNonEmptyInput == nullptr)
-    return success();
 
   unsigned numInputs = op->getNumOperands();
   ArrayRef<int64_t> commonShape =
@@ -114,7 +113,8 @@ LogicalResult ONNXConcatOp::verify() {
   if (!hasShapeAndRank(getOperation()))
     return success();
 
-  ShapedType commonType;
+  ShapedType commonType =
+      mlir::cast<ShapedType>(operandAdaptor.getOperands()[0].getType());
   for (Value operand : operandAdaptor.getOperands()) {
     ArrayRef<int64_t> operandShape =
         mlir::cast<ShapedType>(operand.getType()).getShape();
@@ -181,7 +181,7 @@ LogicalResult ONNXConcatOp::inferShapes(
     return success();
 
   // Get the first non-empty input.
-  Value firstNonEmptyInput = nullptr;
+  Value firstNonEmptyInput = getOperands()[0];
   for (Value operand : getOperands()) {
     ArrayRef<int64_t> operandShape =
         mlir::cast<ShapedType>(operand.getType()).getShape();
@@ -190,8 +190,6 @@ LogicalResult ONNXConcatOp::inferShapes(
     firstNonEmptyInput = operand;
     break;
   }
-  if (firstNonEmptyInput == nullptr)
-    return success();
 
   // Checking value of axis parameter.
   auto commonType = mlir::cast<RankedTensorType>(firstNonEmptyInput.getType());
-- 
2.43.0


From 35137dc7d117b63b0badc5c3979b46b1954329cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:58 +0000
Subject: [PATCH 110/113] fix: MatMul of no rows or no columns crashed the
 compiler

---
 src/Conversion/ONNXToKrnl/Math/MatMul.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
index 7e62376..ac94e5a 100644
--- a/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
+++ b/src/Conversion/ONNXToKrnl/Math/MatMul.cpp
@@ -167,7 +167,7 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
     if (dimI.isLiteral()) {
       int64_t constI = dimI.getLiteral();
       if (constI < iRegTile) {
-        iRegTile = constI;
+        iRegTile = std::max<int64_t>(constI, 1);
         LLVM_DEBUG({
           llvm::dbgs() << "MatMul: Tiling I is reduced to " << iRegTile << "\n";
         });
@@ -209,7 +209,7 @@ struct ONNXMatMulOpLowering : public OpConversionPattern<ONNXMatMulOp> {
     if (dimK.isLiteral()) {
       int64_t constK = dimK.getLiteral();
       if (constK < kRegTile) {
-        kRegTile = constK;
+        kRegTile = std::max<int64_t>(constK, 1);
         LLVM_DEBUG({
           llvm::dbgs() << "MatMul: Tiling K is reduced to " << kRegTile << "\n";
         });
-- 
2.43.0


From 9fceb99e79b5f00dea5e462cb65778f44120f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:54 +0000
Subject: [PATCH 111/113] fix: strings given to functions at run time lacked
 their null character

---
 src/Conversion/KrnlToLLVM/KrnlToLLVMHelper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Conversion/KrnlToLLVM/KrnlToLLVMHelper.cpp b/src/Conversion/KrnlToLLVM/KrnlToLLVMHelper.cpp
index d4aed00..98a1788 100644
--- a/src/Conversion/KrnlToLLVM/KrnlToLLVMHelper.cpp
+++ b/src/Conversion/KrnlToLLVM/KrnlToLLVMHelper.cpp
@@ -203,9 +203,12 @@ LLVM::GlobalOp getOrCreateGlobalString(StringRef str, Location loc,
     builder.setInsertionPointToStart(module.getBody());
 
     Type i8Type = IntegerType::get(builder.getContext(), 8);
-    Type type = LLVM::LLVMArrayType::get(i8Type, str.size());
+    // Functions that take the string rely on the null character that ends it.
+    std::string strWithNull = str.str() + '\0';
+    Type type = LLVM::LLVMArrayType::get(i8Type, strWithNull.size());
     global = create.llvm.globalOp(type, /*isConstant=*/true,
-        LLVM::Linkage::Internal, "om_" + str.str(), builder.getStringAttr(str));
+        LLVM::Linkage::Internal, "om_" + str.str(),
+        builder.getStringAttr(strWithNull));
 
     krnl::setAlignment(global, nullptr, module, builder, *typeConverter);
   }
-- 
2.43.0


From 725a779a3e16dc20e2b83af5754f60b30706c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:37 +0000
Subject: [PATCH 112/113] fix: functions called at run time were told signed
 types for unsigned tensors

---
 src/Conversion/KrnlToLLVM/KrnlCall.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Conversion/KrnlToLLVM/KrnlCall.cpp b/src/Conversion/KrnlToLLVM/KrnlCall.cpp
index df1dc24..860f01d 100644
--- a/src/Conversion/KrnlToLLVM/KrnlCall.cpp
+++ b/src/Conversion/KrnlToLLVM/KrnlCall.cpp
@@ -102,6 +102,14 @@ public:
   }
 
 private:
+  // The element type told to the function: the converted type no longer tells
+  // signed from unsigned.
+  Type tensorElementType(Type elementType) const {
+    if (elementType.isUnsignedInteger())
+      return elementType;
+    return getTypeConverter()->convertType(elementType);
+  }
+
   void handleOneParameter(PatternRewriter &rewriter, Operation *op,
       Value parameter, Value original,
       llvm::SmallVector<Type, 4> &parameterTypeList,
@@ -127,9 +135,8 @@ private:
       Value omTensor = RuntimeAPI::callApi(rewriter, loc, apiRegistry,
           RuntimeAPI::API::CREATE_OMTENSOR, {memRefRankVal});
 
-      Type llvmOrigElemTy =
-          llvmTypeConverter->convertType(originalMemRef.getElementType());
-      krnl::fillOMTensorWithMemRef(parameter, llvmOrigElemTy, omTensor,
+      krnl::fillOMTensorWithMemRef(parameter,
+          tensorElementType(originalMemRef.getElementType()), omTensor,
           false /*outOwning*/, rewriter, loc, apiRegistry, module);
       auto int8Ty = IntegerType::get(context, 8);
       auto opaquePtrTy = getPointerType(context, int8Ty);
@@ -210,11 +217,9 @@ private:
           Value omTensor = RuntimeAPI::callApi(rewriter, loc, apiRegistry,
               RuntimeAPI::API::CREATE_OMTENSOR, {memRefRankVal});
 
-          Type llvmElemTy =
-              llvmTypeConverter->convertType(memRefTy.getElementType());
-          krnl::fillOMTensorWithMemRef(convertedConstantGlobal, llvmElemTy,
-              omTensor, false /*outOwning*/, rewriter, loc, apiRegistry,
-              module);
+          krnl::fillOMTensorWithMemRef(convertedConstantGlobal,
+              tensorElementType(memRefTy.getElementType()), omTensor,
+              false /*outOwning*/, rewriter, loc, apiRegistry, module);
           auto int8Ty = IntegerType::get(context, 8);
           auto opaquePtrTy = getPointerType(context, int8Ty);
           parameterTypeList.emplace_back(opaquePtrTy);
-- 
2.43.0


From c3563afd0f0d53643c2ae015282111ee0da57144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:39 +0000
Subject: [PATCH 113/113] fix: Abs of large integer constants lost their low
 digits

---
 src/Dialect/ONNX/Transforms/ConstProp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Dialect/ONNX/Transforms/ConstProp.cpp b/src/Dialect/ONNX/Transforms/ConstProp.cpp
index 7731fcc..9e25a1e 100644
--- a/src/Dialect/ONNX/Transforms/ConstProp.cpp
+++ b/src/Dialect/ONNX/Transforms/ConstProp.cpp
@@ -430,7 +430,14 @@ struct ElementWiseUnaryOpImpl<ONNXBitwiseNotOp, T, EnableInteger<T>> {
 
 template <typename T>
 struct ElementWiseUnaryOpImpl<ONNXAbsOp, T, EnableNotBool<T>> {
-  static T eval(T val) { return (T)abs((double)val); }
+  static T eval(T val) {
+    if constexpr (std::is_unsigned_v<T>)
+      return val;
+    else if constexpr (std::is_integral_v<T>)
+      return val < 0 ? static_cast<T>(0 - static_cast<uint64_t>(val)) : val;
+    else
+      return static_cast<T>(std::abs(static_cast<double>(val)));
+  }
 };
 
 template <typename T>
-- 
2.43.0

