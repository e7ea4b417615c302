From f90f6ee7207c0e65398ef5e931511c138acac397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 001/109] fix: CrsMatrix from coordinates counts entries, not
 rows, in rowptr

---
 src/CrsMatrix.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..1974667 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -208,23 +208,17 @@ public:
 		Vector<SizeType>::Type iperm(rows2.size());
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType row = 0; // next row whose start has to be set
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			while (row <= rows[i])
+				rowptr_[row++] = i;
 
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		while (row <= rank)
+			rowptr_[row++] = rows.size();
 	}
 
 	// start closure ctors
-- 
2.43.0


From 8c3f670710a6ea9cd2f0bc935e1d39a61cc61070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 002/109] fix: SampleCRSMatrix counts entries, not rows, in
 rowptr

---
 src/SampleCRSMatrix.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..8d75ca4 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -203,21 +203,15 @@ private:
 		Sort<typename Vector<SizeType>::Type> s;
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType row = 0; // next row whose start has to be set
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			while (row <= rows[i])
+				rowptr_[row++] = i;
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+		while (row <= rank_)
+			rowptr_[row++] = rows.size();
 	}
 
 	SizeType rank_;
-- 
2.43.0


From f29235f6dbbd76867deec54da57c5a800c1af9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 003/109] fix: crsMatrixToFullMatrix leaves earlier contents of
 the destination

---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 1974667..d4903fc 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -769,6 +769,7 @@ template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
+	m.setTo(0); // resize does not change what m had before
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
 		for (int k = crsMatrix.getRowPtr(i);
-- 
2.43.0


From 7e1967551337954a80f2f4e3b8144d1f346a40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:30 +0000
Subject: [PATCH 004/109] fix: isTheIdentity of a sparse matrix accepts missing
 diagonal entries

---
 src/CrsMatrix.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index d4903fc..a7df710 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1536,9 +1536,12 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		bool hasDiagonal = false;
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
+			if (col == i)
+				hasDiagonal = true;
 			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
 				return false;
 			}
@@ -1546,6 +1549,8 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 				return false;
 			}
 		}
+		if (checkForIdentity && !hasDiagonal)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From a8b39b8ccae27fc78f8cc55d6c0149e83b4b99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 005/109] fix: multiplyTransposeConjugate of non-square
 matrices

---
 src/Matrix.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..4d22d95 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -963,17 +963,20 @@ void operator<=(std::vector<T, A>& v,
 template <typename T>
 Matrix<T> multiplyTransposeConjugate(const Matrix<T>& O1, const Matrix<T>& O2, char modifier = 'C')
 {
-	SizeType n = O1.rows();
-	Matrix<T> ret(n, n);
+	const SizeType n = O1.rows();
+	if (n != O2.rows())
+		throw RuntimeError("multiplyTransposeConjugate: incompatible sizes\n");
+
+	Matrix<T> ret(O1.cols(), O2.cols());
 	if (modifier == 'C') {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < ret.rows(); s++)
+			for (SizeType t = 0; t < ret.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
 	}
 	else {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < ret.rows(); s++)
+			for (SizeType t = 0; t < ret.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += O1(w, s) * O2(w, t);
 	}
-- 
2.43.0


From 5f0bf330b5b6e921109aac1a5d25b2435b1c194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 006/109] fix: in-place matrix subtraction reads past the end
 of a smaller operand

---
 src/Matrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 4d22d95..c8360a6 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -311,8 +311,9 @@ public:
 
 	Matrix<T>& operator-=(const Matrix<T>& other)
 	{
-		// domain checking ???
-		for (SizeType i = 0; i < ncol_ * nrow_; i++)
+		assert(data_.size() == ncol_ * nrow_);
+		SizeType total = std::min(data_.size(), other.data_.size());
+		for (SizeType i = 0; i < total; ++i)
 			data_[i] -= other.data_[i];
 		return *this;
 	}
-- 
2.43.0


From 4941842e6f72ad530f2726ad9e8c64cd4f2cd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 007/109] fix: isTheIdentity of a non-square matrix

---
 src/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index c8360a6..b02086d 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -850,6 +850,8 @@ bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
 template <typename T>
 bool isTheIdentity(Matrix<T> const& a)
 {
+	if (a.rows() != a.cols())
+		return false;
 
 	for (SizeType i = 0; i < a.rows(); i++) {
 		for (SizeType j = 0; j < a.cols(); j++) {
-- 
2.43.0


From 47b8b7cb81d34caea131bd67055c56780983d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 008/109] fix: product of a vector of vectors and a vector
 never ended

---
 src/Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..bbe3c9e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -97,10 +97,10 @@ template <typename T1, typename T2, typename A, typename AA>
 vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
                         const vector<T2, A>& v2)
 {
-	vector<T2, A> v3(v2.size());
+	vector<T2, A> v3(v1.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From c1d02fb7bc338ae70153b7b9d4c33e5be70a2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 009/109] fix: basenameOf returned as many letters as the
 extension has

---
 src/Vector.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index bbe3c9e..240826e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -554,16 +554,8 @@ public:
 
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
-	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
-	}
-
-	return s.substr(0, l - j);
+	// everything before the last dot, or all of it if there is none
+	return s.substr(0, s.find_last_of('.'));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From bc037d622a802a7dcb3e83a83a1672e2b31a5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 010/109] fix: row vector times matrix computed matrix times
 vector

---
 src/Matrix.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index b02086d..b561173 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -917,6 +917,15 @@ operator*(const T1& a, const T2& b)
 	                                                                     b);
 }
 
+// row vector times matrix; without this the (vector, scalar) overload of Vector.h
+// is the better match, and it exchanges the operands
+template <typename T, typename A>
+std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>
+operator*(const std::vector<T, A>& a, const Matrix<T>& b)
+{
+	return std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>(a, b);
+}
+
 template <typename T>
 std::ClosureOperator<Matrix<T>, Matrix<T>, std::ClosureOperations::OP_PLUS>
 operator+(const Matrix<T>& a, const Matrix<T>& b)
-- 
2.43.0


From bccc7add8c5803ee498477ab11f48799580925e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 011/109] fix: sorting a sparse vector of one entry left it
 marked unsorted

---
 src/SparseVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..e302fa0 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -289,9 +289,14 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (isSorted_)
 			return;
 
+		if (indices_.size() == 0) {
+			isSorted_ = true;
+			return;
+		}
+
 		Sort<typename Vector<SizeType>::Type> sort;
 		typename Vector<SizeType>::Type iperm(indices_.size());
 		sort.sort(indices_, iperm);
-- 
2.43.0


From d96d8cca07f8efc2dba79807f86cf42d87bb74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 012/109] fix: equality of sparse vectors with different
 numbers of entries

---
 src/SparseVector.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e302fa0..bb32186 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -239,10 +239,21 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
-		for (SizeType i = 0; i < v.values_.size(); i++) {
-			if (indices_[i] != v.indices_[i])
-				return false;
-			FieldType val = values_[i] - v.values_[i];
+		if (size_ != v.size_)
+			return false;
+
+		const SizeType n = indices_.size();
+		const SizeType m = v.indices_.size();
+		SizeType i = 0, j = 0;
+		while (i < n || j < m) {
+			FieldType val = 0;
+			if (j == m || (i < n && indices_[i] < v.indices_[j]))
+				val = values_[i++];
+			else if (i == n || v.indices_[j] < indices_[i])
+				val = v.values_[j++];
+			else
+				val = values_[i++] - v.values_[j++];
+
 			if (!isAlmostZero(val, 1e-8))
 				return false;
 		}
-- 
2.43.0


From 693e96a75a419b22d2c1eb607c0da2f882d60d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 013/109] fix: scalar product with an empty sparse vector

---
 src/SparseVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index bb32186..8eb5446 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -263,8 +263,8 @@ public:
 	// FIXME : needs performance
 	FieldType scalarProduct(const SparseVector<FieldType>& v) const
 	{
-		assert(indices_.size() == 1 || isSorted_);
-		assert(v.indices_.size() == 1 || v.isSorted_);
+		assert(indices_.size() < 2 || isSorted_);
+		assert(v.indices_.size() < 2 || v.isSorted_);
 		FieldType sum = 0;
 		SizeType i = 0, j = 0, index = 0;
 
-- 
2.43.0


From f5b53264ac13ebee89043e94f29722da38307bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 014/109] fix: range test of SparseVector::toChunk let the next
 index through

---
 src/SparseVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 8eb5446..b00d29c 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -162,9 +162,9 @@ public:
 
 	void toChunk(typename Vector<FieldType>::Type& dest, SizeType i0, SizeType total, bool test = false) const
 	{
-		if (test) {
+		if (test && indices_.size() > 0) {
 			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
-- 
2.43.0


From 48a51741bd321c6c59019ace4717f1aa8f6bd2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 015/109] fix: SparseVector::toChunk kept earlier contents of
 the destination

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index b00d29c..2fe2ae3 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -169,6 +169,8 @@ public:
 				                   " check failed\n");
 		}
 		dest.resize(total);
+		for (SizeType i = 0; i < total; i++)
+			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
 			dest[indices_[i] - i0] = values_[i];
 	}
-- 
2.43.0


From 9cd524fc3c7e71d7d4fc36b2b49d7090641ed3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 016/109] fix: SparseVector::findPartition put the first index
 of a partition in the one before

---
 src/SparseVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 2fe2ae3..4ba14ea 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -203,9 +203,9 @@ public:
 				break;
 			}
 		}
-		SizeType ret2 = 1;
+		SizeType ret2 = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
-- 
2.43.0


From cf61e5825c1139b6f628c45a4fe6f164466a2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 017/109] fix: first and last index of an empty sparse vector

---
 src/SparseVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 4ba14ea..6679d51 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -358,6 +358,9 @@ private:
 
 	PairType findFirstLast() const
 	{
+		if (indices_.size() == 0)
+			throw RuntimeError("SparseVector::findFirstLast(): no entries\n");
+
 		return PairType(
 		    *(std::min_element(indices_.begin(), indices_.end())),
 		    *(std::max_element(indices_.begin(), indices_.end())));
-- 
2.43.0


From 8ac9da7944b492d86e10f4829bfc701650eeb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 018/109] fix: subtracting a sparse vector from itself never
 ended

---
 src/SparseVector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 6679d51..b8d9dd4 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -229,7 +229,8 @@ public:
 
 	SparseVector<FieldType> operator-=(const SparseVector<FieldType>& v)
 	{
-		for (SizeType i = 0; i < v.values_.size(); i++) {
+		const SizeType n = v.values_.size(); // v may be *this
+		for (SizeType i = 0; i < n; i++) {
 			values_.push_back(-v.values_[i]);
 			indices_.push_back(v.indices_[i]);
 		}
-- 
2.43.0


From 5c0a9c544b5d01fd9f4445d769be069b54314d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 019/109] fix: refilled sparse vector was taken as sorted

---
 src/SparseVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index b8d9dd4..0a1bcb7 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -129,6 +129,7 @@ public:
 	{
 		values_.clear();
 		indices_.clear();
+		isSorted_ = false;
 		size_ = x;
 	}
 
-- 
2.43.0


From 1840377e383fde1f3585ae1df6606cfde33e0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 020/109] fix: SparseRowCached of initial size zero never grew

---
 src/SparseRowCached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseRowCached.h b/src/SparseRowCached.h
index 70cd27d..2667090 100644
--- a/src/SparseRowCached.h
+++ b/src/SparseRowCached.h
@@ -109,7 +109,7 @@ public:
 		                        values_.push_back(value);*/
 		SizeType cacheSize = cols_.size();
 		if (counter_ >= cacheSize) {
-			cacheSize *= 2;
+			cacheSize = (cacheSize == 0) ? 1 : 2 * cacheSize;
 			cols_.resize(cacheSize);
 			values_.resize(cacheSize);
 		}
-- 
2.43.0


From 0131949b54c67562884211032c49c5731f193f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 021/109] fix: atoi took text such as 1+2 as a number

---
 src/PsimagLite.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 1edd10b..71476d3 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -1,4 +1,6 @@
 #include "PsimagLite.h"
+#include <cerrno>
+#include <cstdlib>
 
 namespace PsimagLite {
 
@@ -74,7 +76,14 @@ int atoi(String str)
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
 
-	return std::atoi(str.c_str());
+	// a sign elsewhere than in front, no digits at all, or a number that does not fit
+	char* end = nullptr;
+	errno = 0;
+	const long value = std::strtol(str.c_str(), &end, 10);
+	if (n == 0 || end != str.c_str() + n || errno == ERANGE || value != static_cast<int>(value))
+		throw RuntimeError("atoi received something that is not an int: " + str + "\n");
+
+	return value;
 }
 
 bool isAnInteger(String str)
-- 
2.43.0


From 787dcf88b2a4efd78f2b4074afa59b7bc1cdf26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:50 +0000
Subject: [PATCH 022/109] fix: atof took text such as 1+2 as a number

---
 src/PsimagLite.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 71476d3..eb7e6a9 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -122,7 +122,13 @@ double atof(String str)
 	if (!isAfloat(str))
 		throw RuntimeError("atof received a non-digit " + str + "\n");
 
-	return std::atof(str.c_str());
+	// signs, dots and exponents in the wrong places
+	char* end = nullptr;
+	const double value = std::strtod(str.c_str(), &end);
+	if (end != str.c_str() + str.length())
+		throw RuntimeError("atof received something that is not a number: " + str + "\n");
+
+	return value;
 }
 
 void replaceAll(String& str, const String& from, const String& to)
-- 
2.43.0


From 38db50802bc5763dd772553ba1f715076754cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 023/109] fix: extractSiteIfAny took ] before [ as a site

---
 src/OneOperatorSpec.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..e26dbb1 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -83,6 +83,9 @@ struct OneOperatorSpec {
 		if (b1 || b2)
 			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
 
+		if (firstIndex > lastIndex)
+			err(name + " has " + cEnd + " before " + cBegin + "\n");
+
 		String str = name.substr(0, firstIndex);
 		str += name.substr(lastIndex + 1, name.length() - lastIndex);
 		String siteString = name.substr(firstIndex + 1, lastIndex - firstIndex - 1);
-- 
2.43.0


From df8b1d3328c59615fbc4ce2597dea2dc42794b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 024/109] fix: GetBraOrKet read past the end of a stripped ket

---
 src/GetBraOrKet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..d9ac2aa 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
-- 
2.43.0


From cb6489fce3b68d15cba512dab9262d770b3aa015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 025/109] fix: missing number in a bra or ket was not reported

---
 src/GetBraOrKet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index d9ac2aa..0b702c1 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -122,9 +122,9 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
-			             "location "
-			             + ttos(start) + " for string " + str + "\n");
+			throw RuntimeError("getNumberFrom: no number after character "
+			                   "location "
+			                   + ttos(start) + " for string " + str + "\n");
 
 		str = str.substr(i, str.length() - i);
 
-- 
2.43.0


From e2141e718ed34aea8c79fbf904c2ec239935694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 026/109] fix: trailing text in a bra or ket was not reported

---
 src/GetBraOrKet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 0b702c1..ae92820 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
-			return;
+			if (str.empty())
+				return;
+			err("GetBraOrKet: Trailing text " + str + "\n");
 		}
 
-		if (str.size() < 2)
+		if (str.empty())
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (!str.empty())
+				err("GetBraOrKet: Trailing text " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
-- 
2.43.0


From a069e34339e7070ebdba4e507da6412b2b89fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 027/109] fix: expressions with missing operands were not
 reported

---
 src/AST/ExpressionForAST.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..f400a27 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -55,6 +55,9 @@ public:
 				break;
 		}
 
+		if (sumOfA != 0)
+			err("ExpressionForAST: missing operands or empty expression\n");
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
-- 
2.43.0


From ded161f661ffdf3cee003a3492e35dce6244868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 028/109] fix: predicates never ended if the value of a
 variable contains its name

---
 src/PredicateSimple.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..690308b 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -144,19 +144,8 @@ private:
 	template <typename T>
 	static String replaceVariable(String hs, String name, T val)
 	{
-		const String valString = ttos(val);
-		const SizeType nameLength = name.length();
-
-		while (true) {
-			size_t index = hs.find(name);
-			if (index == String::npos)
-				return hs;
-			String part1 = (index == 0) ? "" : hs.substr(0, index);
-			String part2 = hs.substr(index + nameLength,
-			                         hs.length() - nameLength - index);
-			hs = part1 + valString + part2;
-		}
-
+		// does not look for the name again in the value just written
+		replaceAll(hs, name, ttos(val));
 		return hs;
 	}
 
-- 
2.43.0


From 942843f9f3605f642d943e9558e4ffa232e64bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 029/109] fix: predicate divisible by zero crashed

---
 src/PredicateSimple.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index 690308b..3506bdc 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -99,6 +99,9 @@ private:
 	    SizeType rv,
 	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
 	{
+		if (rv == 0)
+			err("PredicateSimple: divisible by zero\n");
+
 		return ((lv % rv) == 0);
 	}
 
-- 
2.43.0


From ab6c523ef79d9dc7090dd7de9c611592201190f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 030/109] fix: divisibility predicate of negative numbers

---
 src/PredicateSimple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index 3506bdc..fe6132c 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -95,8 +95,8 @@ private:
 
 	template <typename T>
 	static bool divisibleBy(
-	    SizeType lv,
-	    SizeType rv,
+	    long int lv, // signed: lv or rv may be negative
+	    long int rv,
 	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
 	{
 		if (rv == 0)
-- 
2.43.0


From 15680014f38cf235bce4555ffd96cf94a53c4ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 031/109] fix: a predicate of only separators was taken as true

---
 src/PredicateAnd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PredicateAnd.h b/src/PredicateAnd.h
index 362578d..ffe44af 100644
--- a/src/PredicateAnd.h
+++ b/src/PredicateAnd.h
@@ -26,6 +26,9 @@ public:
 		VectorStringType tokens;
 		split(tokens, pred, sep);
 		const SizeType n = tokens.size();
+		if (n == 0 && pred != "")
+			err("PredicateAnd: no predicates in " + pred + "\n");
+
 		for (SizeType i = 0; i < n; ++i)
 			vPredicateSimple_.push_back(PredicateSimple(tokens[i]));
 	}
-- 
2.43.0


From 93cc23a14d0f2d9b200b8f3bdd9ccd7f1ceb7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 032/109] fix: bonds across the boundary of a periodic chain
 used the connectors of other bonds

---
 src/Geometry/LongChain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..bd5d4e5 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// bonds across the boundary come after all others
+		return (isPeriodic_ && imax - imin != distance_) ? imax : imin;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From f5b26a3dbd6dda6fc444bd0743e572d5a0ed2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 033/109] fix: bonds across the boundary of a periodic ladderx
 used the connectors of other bonds

---
 src/Geometry/LadderX.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..7a04051 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -187,9 +187,8 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
-			return imin - imin / leg_;
+			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
 			return (imin - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-- 
2.43.0


From 077c1983454eeee324d0b2f021cd810d0171639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 034/109] fix: ladder of one leg read an uninitialised flag

---
 src/Geometry/Ladder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..2cb89fe 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,6 +96,7 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
-- 
2.43.0


From 7ff1b69c9988f21570d665b5a9d307df9280d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 035/109] fix: ladderbath with an odd cluster used connectors
 out of range

---
 src/Geometry/LadderBath.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..1ce2975 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -105,6 +105,9 @@ public:
 	{
 		io.readline(bathSitesPerSite_, "BathSitesPerSite=");
 		clusterSize_ = linSize_ / (1 + bathSitesPerSite_);
+		if (clusterSize_ * (1 + bathSitesPerSite_) != linSize_ || (clusterSize_ & 1))
+			throw RuntimeError("LadderBath: number of sites must be an even number of cluster sites"
+			                   " plus their baths\n");
 
 		ladder_ = new LadderType(clusterSize_, io);
 	}
-- 
2.43.0


From 36cc53dc3c6508833fc3a1a46ad80923f1669798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 036/109] fix: Geometry::split repeated and missed sites if the
 middle is inside a block

---
 src/Geometry/Geometry.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..095bda5 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,13 +244,15 @@ public:
 			i += sitesPerBlock;
 		}
 
+		// the system pieces may end after the middle
+		const SizeType firstY = i;
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
 			typename Vector<SizeType>::Type tmpV2(sitesPerBlock);
 			for (SizeType j = 0; j < sitesPerBlock; j++) {
 				SizeType jj = sitesPerBlock - 1 - j;
-				tmpV[j] = (linSize_ - 1 - i - jj) + (middle - sitesPerBlock);
+				tmpV[j] = (linSize_ - 1 - i - jj) + (firstY - sitesPerBlock);
 				tmpV2[j] = jj + i;
 				assert(tmpV[j] < linSize_);
 			}
-- 
2.43.0


From 3a28bbe855cfd8cdba8f08b21502cddfbe9a70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 037/109] fix: the dense form of a tridiagonal matrix kept
 entries of the previous contents

---
 src/TridiagonalMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..3ccdf26 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		m.clear();
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From cf7175846603f0959f86207bde54c91a39001df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 038/109] fix: the plot of a range shorter than its step wrote
 out of range

---
 src/ContinuedFraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..c128cde 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -159,7 +159,7 @@ public:
 		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
 		if (result.size() == 0)
 			result.resize(n);
-		for (RealType omega = params.omega1; omega < params.omega2;
+		for (RealType omega = params.omega1; omega < params.omega2 && counter < result.size();
 		     omega += params.deltaOmega) {
 			ComplexType z(omega, params.delta);
 			ComplexType res = iOfOmega(z, Eg_, isign_);
-- 
2.43.0


From b3397a9a9e42c85088ba69e85d8e9de4c16bb544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:06 +0000
Subject: [PATCH 039/109] fix: signs and imaginary units of complex literals
 were misread

---
 src/Complex.h | 62 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..e43a496 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -21,7 +21,11 @@ Please see full open source license included in file LICENSE.
 
 #include "../loki/TypeTraits.h"
 #include "AllocatorCpu.h"
+#include <cctype>
 #include <complex>
+#include <cstdlib>
+#include <stdexcept>
+#include <string>
 
 namespace PsimagLite {
 
@@ -112,33 +116,47 @@ norm(const std::complex<T>& t)
 	return std::norm(t);
 }
 
+// The forms are a, bi, a+bi, a-bi, and a+-bi; b can be left out if it is one
 inline std::complex<double> stringToComplex(const std::string& str) {
-	double real = 0;
-	double imag = 0;
-	char dummy = 0;
-	std::stringstream ss(str);
-
-	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
-			imag = 0;
+	const char* const last = str.c_str() + str.length();
+	const char* p = str.c_str();
+	double part[2] = { 0, 0 };
+	bool isImag = false;
+	bool hasTwo = false;
+
+	for (int i = 0; i < 2 && !isImag; ++i) {
+		if (i == 1) {
+			if (p == last)
+				break; // only a real part
+			hasTwo = true;
+			if (*p == '+' && p[1] == '-')
+				++p;
+			if (*p != '+' && *p != '-')
+				throw std::runtime_error("stringToComplex: " + str + "\n");
 		}
-		if (str[str.find('+') + 1] == '-') {
-			imag = -imag;
-		}
-	} else if (str.find('i') != std::string::npos) {
-		ss >> imag >> dummy;
-		real = 0;
-		if (str.back() != 'i') {
-			imag = 0;
+
+		char* end = nullptr;
+		double x = isspace(*p) ? 0 : std::strtod(p, &end);
+		if (end == nullptr || end == p) { // no digits: must be i, +i or -i
+			x = (*p == '-') ? -1 : 1;
+			if (*p == '+' || *p == '-')
+				++p;
+			if (*p != 'i')
+				throw std::runtime_error("stringToComplex: " + str + "\n");
+		} else {
+			p = end;
 		}
+
+		isImag = (*p == 'i');
+		if (isImag)
+			++p;
+		part[isImag ? 1 : 0] = x;
 	}
-	else {
-		ss >> real;
-		imag = 0;
-	}
 
-	return std::complex<double>(real, imag);
+	if (p != last || (hasTwo && !isImag))
+		throw std::runtime_error("stringToComplex: " + str + "\n");
+
+	return std::complex<double>(part[0], part[1]);
 }
 } // namespace PsimagLite
 
-- 
2.43.0


From ed5ee2652c1f66772170b233ee84fe8dc0d780e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 040/109] fix: malformed complex numbers in input files were
 accepted

---
 src/InputNg.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..4db36c6 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -1014,6 +1014,9 @@ public:
 				buffer += s[i];
 			}
 
+			if (start + buffer.length() + 1 != s.length())
+				throw RuntimeError(s + " is not a complex number\n");
+
 			RealType img = stringToReal(buffer);
 
 			return ComplexOrRealType(r, img);
-- 
2.43.0


From 722d0ccff5318752d72adaa914696b1d013cd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 041/109] fix: last character of an input file was read twice

---
 src/InputNg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 4db36c6..a0e773d 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
-- 
2.43.0


From 8f5b6abd52cac5474d3e4999ee79a9059268fa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 042/109] fix: comments after values changed what was read

---
 src/InputNg.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index a0e773d..d8b3359 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -366,6 +366,7 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			SizeType stateBeforeComment = IN_LABEL;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
 				if (state_ == IN_COMMENT && type != ENDOFLINE)
@@ -374,7 +375,7 @@ public:
 				case ENDOFLINE:
 					line_++;
 					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
+						state_ = stateBeforeComment;
 						break;
 					}
 					if (buffer == "")
@@ -402,6 +403,10 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
+					if (buffer != "")
+						saveBuffer(buffer, WHITESPACE);
+					buffer = "";
+					stateBeforeComment = state_;
 					state_ = IN_COMMENT;
 					break;
 				default:
-- 
2.43.0


From a45b136c83744fb2289403c4989f2ab7d039ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:59 +0000
Subject: [PATCH 043/109] fix: removal of a label that is not repeated erased
 past the end

---
 src/InputNg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index d8b3359..32e7e42 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -955,7 +955,8 @@ public:
 
 			if (it2 != labelsForRemoval_.end() || forceRemoval) {
 				mymap.erase(it);
-				labelsForRemoval_.erase(it2);
+				if (it2 != labelsForRemoval_.end())
+					labelsForRemoval_.erase(it2);
 			}
 		}
 
-- 
2.43.0


From 561d9ac6956102bd8fa5bc5ecb95979d13704038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 044/109] fix: loops with weights did not compile with
 Parallelizer2

---
 src/Parallelizer2Pthread.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..a2c8a11 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -110,8 +110,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), nthreads_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, nthreads_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From a97ca8851e917a0bc3ac1fda313c2bad4d626127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:07 +0000
Subject: [PATCH 045/109] fix: the stack size asked for threads was ignored

It was set on the attributes before these were initialised.
---
 src/Parallelizer2Pthread.h | 8 ++++----
 src/PthreadsNg.h           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index a2c8a11..6b04d55 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -133,7 +133,10 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -153,9 +156,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..0492a70 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,10 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,9 +260,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 #ifndef __APPLE__
 			if (setAffinities_)
 				setAffinity(attr[j], &cpuset, j);
-- 
2.43.0


From 5c55cf8ed69837026c40299e87ecd6b24fd254e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:08 +0000
Subject: [PATCH 046/109] fix: tasks of threads that could not be created were
 lost

A thread that was not created was joined with an indeterminate id as well.
---
 src/Parallelizer2Pthread.h | 27 ++++++++++++++++++++-------
 src/PthreadsNg.h           | 27 ++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 6b04d55..c3d68b5 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -47,12 +47,8 @@ struct PthreadFunctionStruct2 {
 };
 
 template <typename SomeLambdaType, typename SomeLoadBalancer>
-void* thread_function_wrapper2(void* dummyPtr)
+void runTasksOfThread2(PthreadFunctionStruct2<SomeLambdaType, SomeLoadBalancer>* pfs)
 {
-	PthreadFunctionStruct2<SomeLambdaType, SomeLoadBalancer>* pfs = static_cast<
-	    PthreadFunctionStruct2<SomeLambdaType, SomeLoadBalancer>*>(
-	    dummyPtr);
-
 	const SomeLambdaType* pfh = pfs->pfh;
 
 	int s = 0;
@@ -70,6 +66,16 @@ void* thread_function_wrapper2(void* dummyPtr)
 			break;
 		(*pfh)(taskNumber + pfs->start, pfs->threadNum);
 	}
+}
+
+template <typename SomeLambdaType, typename SomeLoadBalancer>
+void* thread_function_wrapper2(void* dummyPtr)
+{
+	PthreadFunctionStruct2<SomeLambdaType, SomeLoadBalancer>* pfs = static_cast<
+	    PthreadFunctionStruct2<SomeLambdaType, SomeLoadBalancer>*>(
+	    dummyPtr);
+
+	runTasksOfThread2(pfs);
 
 	int retval = 0;
 	pthread_exit(static_cast<void*>(&retval));
@@ -123,6 +129,7 @@ public:
 		                                                                                           LoadBalancerType>[nthreads_];
 		pthread_t* thread_id = new pthread_t[nthreads_];
 		pthread_attr_t** attr = new pthread_attr_t*[nthreads_];
+		std::vector<bool> created(nthreads_, false);
 
 		for (SizeType j = 0; j < nthreads_; ++j) {
 			pfs[j].pfh = &lambda;
@@ -159,10 +166,16 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			created[j] = (ret == 0);
+		}
+
+		for (SizeType j = 0; j < nthreads_; ++j) {
+			if (created[j])
+				pthread_join(thread_id[j], 0);
+			else // no thread available: do its tasks here
+				runTasksOfThread2(&pfs[j]);
 		}
 
-		for (SizeType j = 0; j < nthreads_; ++j)
-			pthread_join(thread_id[j], 0);
 		for (SizeType j = 0; j < nthreads_; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 0492a70..5e71d49 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -128,12 +128,8 @@ struct PthreadFunctionStruct {
 };
 
 template <typename PthreadFunctionHolderType, typename LoadBalancerType>
-void* thread_function_wrapper(void* dummyPtr)
+void runTasksOfThread(PthreadFunctionStruct<PthreadFunctionHolderType, LoadBalancerType>* pfs)
 {
-	PthreadFunctionStruct<PthreadFunctionHolderType, LoadBalancerType>* pfs = static_cast<PthreadFunctionStruct<PthreadFunctionHolderType,
-	                                                                                                            LoadBalancerType>*>(
-	    dummyPtr);
-
 	PthreadFunctionHolderType* pfh = pfs->pfh;
 
 	int s = 0;
@@ -151,6 +147,16 @@ void* thread_function_wrapper(void* dummyPtr)
 			break;
 		pfh->doTask(taskNumber, pfs->threadNum);
 	}
+}
+
+template <typename PthreadFunctionHolderType, typename LoadBalancerType>
+void* thread_function_wrapper(void* dummyPtr)
+{
+	PthreadFunctionStruct<PthreadFunctionHolderType, LoadBalancerType>* pfs = static_cast<PthreadFunctionStruct<PthreadFunctionHolderType,
+	                                                                                                            LoadBalancerType>*>(
+	    dummyPtr);
+
+	runTasksOfThread(pfs);
 
 	int retval = 0;
 	pthread_exit(static_cast<void*>(&retval));
@@ -212,6 +218,7 @@ public:
 		                                LoadBalancerType>[actualThreads];
 		pthread_t* thread_id = new pthread_t[actualThreads];
 		pthread_attr_t** attr = new pthread_attr_t*[actualThreads];
+		std::vector<bool> created(actualThreads, false);
 
 #ifndef __APPLE__
 		cpu_set_t cpuset;
@@ -268,10 +275,16 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper<PthreadFunctionHolderType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			created[j] = (ret == 0);
+		}
+
+		for (SizeType j = 0; j < actualThreads; ++j) {
+			if (created[j])
+				pthread_join(thread_id[j], 0);
+			else // no thread available: do its tasks here
+				runTasksOfThread(&pfs[j]);
 		}
 
-		for (SizeType j = 0; j < actualThreads; ++j)
-			pthread_join(thread_id[j], 0);
 		for (SizeType j = 0; j < actualThreads; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
-- 
2.43.0


From 9eca39f004632c475b196f12c4113d687c20aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:46 +0000
Subject: [PATCH 047/109] fix: GemmR divided by zero if one dimension of the
 result is zero

---
 src/GemmR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GemmR.h b/src/GemmR.h
index 222ef7b..f256031 100644
--- a/src/GemmR.h
+++ b/src/GemmR.h
@@ -118,7 +118,7 @@ private:
 
 	bool isSmall(SizeType m, SizeType n) const
 	{
-		if (nb_ == 0)
+		if (nb_ == 0 || m == 0 || n == 0)
 			return true;
 		return ((m <= nb_) && (n <= nb_));
 	}
-- 
2.43.0


From 9e57885252cb9aaac3f145f95e64b0d7c53aabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 048/109] fix: reading a stack kept the elements it had before

---
 src/Stack.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Stack.h b/src/Stack.h
index c224213..db4332f 100644
--- a/src/Stack.h
+++ b/src/Stack.h
@@ -130,6 +130,9 @@ operator>>(std::istream& is, StackType& x)
 	typedef typename StackType::value_type ValueType;
 	typename Vector<ValueType>::Type tmpVec;
 	is >> tmpVec;
+	while (!x.empty())
+		x.pop();
+
 	for (int i = tmpVec.size() - 1; i >= 0; i--) {
 		x.push(tmpVec[i]);
 	}
-- 
2.43.0


From 001fe862f3d3eee1dd3bf49d6231d8a2684b8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 049/109] fix: reading an empty sparse matrix kept the previous
 contents

---
 src/CrsMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index a7df710..cb83c1f 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -726,7 +726,8 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		    "is>>CrsMatrix(...): Cols must be positive\n");
 	is >> ncol;
 
-	if (n == 0 || ncol == 0)
+	m.clear();
+	if (n == 0) // nothing else was written
 		return is;
 
 	m.resize(n, ncol);
-- 
2.43.0


From 5295a54cdb0416b39cf20957e2e219f7021bc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 050/109] fix: reading an empty record kept the previous
 contents

---
 src/Io/IoSimple.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..bfef9a3 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -333,8 +333,6 @@ public:
 			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
 			int xsize;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
-- 
2.43.0


From a07b0a41563ec97f84dab01dccd01efa2181dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 051/109] fix: asking for a missing occurrence of a record was
 not an error

The size was then read past the end of the file.
---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index bfef9a3..f1e068a 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -394,7 +394,7 @@ public:
 				                                   counter);
 			}
 
-			if (!found && tempSaved == "NOTFOUND") {
+			if (!found) {
 				if (!beQuiet) {
 					std::cerr << "Not found " << s
 					          << " in file " << filename_;
-- 
2.43.0


From 1695ea4ea8708b6b090559c19b0051280c87cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 052/109] fix: asking for the last record of a label delivered
 the one before

---
 src/Io/IoSimple.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index f1e068a..474f26f 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -330,8 +330,8 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
-			int xsize;
+			std::pair<String, SizeType> sc = advanceToRead(s, level, beQuiet);
+			int xsize = 0;
 			fin_ >> xsize;
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
@@ -346,7 +346,7 @@ public:
 		void
 		read(X& mat, String const& s, LongIntegerType level = 0, typename EnableIf<IsMatrixLike<X>::True, int>::Type = 0)
 		{
-			advance(s, level);
+			advanceToRead(s, level, false);
 			fin_ >> mat;
 		}
 
@@ -355,7 +355,7 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceToRead(s, level, beQuiet);
 			fin_ >> x;
 			return sc;
 		}
@@ -443,6 +443,17 @@ public:
 
 	private:
 
+		// advance leaves the file before the last instance when asked for it
+		std::pair<String, SizeType> advanceToRead(String const& s,
+		                                          LongIntegerType level,
+		                                          bool beQuiet)
+		{
+			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			if (level == LAST_INSTANCE)
+				advance(s, 0, beQuiet);
+			return sc;
+		}
+
 		String filename_;
 		std::ifstream fin_;
 	};
-- 
2.43.0


From e0c52ad4a66824c9b5e3163076802d3b1985d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 053/109] fix: a line shorter than the previous one was printed
 with the end of it

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 474f26f..3370044 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -195,7 +195,7 @@ public:
 				return;
 			(*fout_) << s().str() << "\n";
 			s().flush();
-			s().seekp(std::ios_base::beg);
+			s().str("");
 		}
 
 		template <typename T>
-- 
2.43.0


From acf6cf4e6ebf200730dd2597079cad0a49f48feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:39 +0000
Subject: [PATCH 054/109] fix: CanonicalExpression overwrites the result at the
 first non-empty term

---
 src/CanonicalExpression.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..50d6ebe 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -72,6 +72,7 @@ public:
 		// String exprCanonical = expr; // canonicalize here
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
+		bool firstTerm = true;
 
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
@@ -83,12 +84,14 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (firstTerm)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+
+			firstTerm = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
-- 
2.43.0


From b163446833d6787b829c61861998fd349a8bbe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 055/109] fix: reading a non-integer from Ainur throws a
 dangling const char*

---
 src/Ainur/AinurConvert.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index 3d12c97..c140985 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -79,9 +79,8 @@ public:
 		try {
 			t = PsimagLite::atoi(label.c_str());
 		}
-		catch (std::exception& e) {
-			std::cerr << "FATAL: AinurState: Label " + label + " must be an integer\n";
-			throw e.what();
+		catch (...) {
+			err("FATAL: AinurState: Label " + label + " must be an integer\n");
 		}
 	}
 
-- 
2.43.0


From e0995393e1485cc05308d32f9058c976380a976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 056/109] fix: an Ainur ellipsis with no repetitions writes
 past the vector

---
 src/Ainur/AinurConvert1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 247c31b..7534fcf 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -57,12 +57,14 @@ void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 	if (n == 2 && attr[1].length() > 4 && attr[1].substr(0, 4) == "...x") {
 		const SizeType m = t_.size();
 		const SizeType l = attr[1].length();
-		const SizeType mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		const int mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		if (mm <= 0)
+			err("Ellipsis must repeat at least once\n");
 		if (m != 0)
 			std::cout << "Resizing vector to " << mm << "\n";
 		t_.resize(mm);
 		AinurComplex::convert(t_[0], attr[0]);
-		for (SizeType i = 1; i < mm; ++i)
+		for (int i = 1; i < mm; ++i)
 			t_[i] = t_[0];
 		return;
 	}
-- 
2.43.0


From 8e8da8d5f6d81990b6945ec7721951acf12497df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 057/109] fix: Ainur reads past the end of scripts and skips
 one character of whatever follows

---
 src/Ainur/AinurSpirit1.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index afd55c9..76df6ed 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -83,16 +83,13 @@ Ainur::Ainur(String str)
 	IteratorType last = str.end();
 	qi::phrase_parse(first, last, statement % ";", AINUR_COMMENTS);
 
-	++first;
-	if (first != last && !allEmpty(first, last)) {
+	// the last statement may end in a semicolon, then only blanks and comments
+	qi::phrase_parse(first, last, -qi::lit(';'), AINUR_COMMENTS);
 
-		qi::parse(first, last, +('#' >> *(qi::char_ - qi::eol) >> qi::eol | qi::eol | qi::space));
-
-		if (first + 1 != last && !allEmpty(first, last)) {
-			IteratorType e = (first + 20 < last) ? first + 20 : last;
-			err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
-			                         String(first, e)));
-		}
+	if (first != last) {
+		IteratorType e = (last - first > 20) ? first + 20 : last;
+		err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
+		                         String(first, e)));
 	}
 
 	// Deal with macros
-- 
2.43.0


From 1eca1fe203057613ccfe528ae1f80b4b388bbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:19 +0000
Subject: [PATCH 058/109] fix: assigning to an Ainur label with an underscore
 declares another label

---
 src/Ainur/AinurSpirit1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index 76df6ed..ed8e7bf 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -59,6 +59,7 @@ Ainur::Ainur(String str)
 	qi::rule<IteratorType, std::string(), qi::unused_type> zeroToNine;
 	qi::rule<IteratorType, std::string(), qi::unused_type> keywords;
 	qi::rule<IteratorType, std::string(), qi::unused_type> value;
+	qi::rule<IteratorType, std::string(), qi::unused_type> typeName;
 	qi::rule<IteratorType, std::string(), qi::unused_type> typeQualifier;
 	qi::rule<IteratorType, AttribType, SkipperType> statement1;
 	qi::rule<IteratorType, AttribType, SkipperType> statement2;
@@ -68,7 +69,9 @@ Ainur::Ainur(String str)
 	aToZ = ascii::char_("a", "z") | ascii::char_("A", "Z");
 	zeroToNine = ascii::char_("0", "9");
 
-	typeQualifier %= +(aToZ | ascii::char_(".") | ascii::char_("!"));
+	typeName %= +(aToZ | ascii::char_(".") | ascii::char_("!"));
+	// a word of its own; otherwise my_label=1 would declare _label of type my
+	typeQualifier %= typeName >> &(qi::space | qi::lit('#'));
 	keywords = *(ascii::char_("_")) >> +aToZ >> *(ascii::char_("a", "z") | ascii::char_("A", "Z") | ascii::char_("0", "9") | ascii::char_(":") | ascii::char_("_"));
 	statement1 %= keywords >> '=' >> value;
 	statement2 %= typeQualifier >> keywords;
-- 
2.43.0


From a7789f102d13e887a02c9d3784ae1998d58d6f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:19 +0000
Subject: [PATCH 059/109] fix: blanks before the semicolon become part of an
 Ainur value

---
 src/Ainur/AinurState.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 3136f73..9103fe8 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -5,6 +5,7 @@
 #include "../Vector.h"
 #include "AinurConvert.hh"
 #include "AinurDoubleOrFloat.h"
+#include "AinurLexical.h"
 #include "AinurMacros.hh"
 #include <cassert>
 #include <numeric>
@@ -56,7 +57,7 @@ public:
 		// if (values_[x] != "")
 		//	std::cerr<<"Overwriting label "<<k<<" with "<<v<<"\n";
 
-		ainurVariables_[x].value = v;
+		ainurVariables_[x].value = withoutTrailingBlanks(v);
 	}
 
 	void declare(String d, String key, String v)
@@ -73,7 +74,7 @@ public:
 			d = d.substr(0, last - 1);
 		}
 
-		AinurVariable ainurVar({ key, v, d, "NORMAL" });
+		AinurVariable ainurVar({ key, withoutTrailingBlanks(v), d, "NORMAL" });
 		ainurVariables_.emplace_back(ainurVar);
 
 		used_.push_back(u);
@@ -204,6 +205,14 @@ private:
 		return it - ainurVariables_.begin();
 	}
 
+	// blanks between a value and its semicolon aren't part of the value
+	static String withoutTrailingBlanks(String s)
+	{
+		while (s.length() > 0 && AinurLexical::isEmptyChar(s[s.length() - 1]))
+			s = s.substr(0, s.length() - 1);
+		return s;
+	}
+
 	static bool isEmptyValue(String s)
 	{
 		return (s.length() == 0 || s == ZERO_CHAR_STRING_);
-- 
2.43.0


From 3eec38c90e25135bf65932f3b32182d45c415621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 060/109] fix: Ainur macros at the end of a value or next to
 each other aren't expanded

---
 src/Ainur/AinurState.h | 47 ++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 9103fe8..91bca89 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -272,38 +272,45 @@ private:
 		SizeType status = 0; // 0 = outsite a macro, 1 = inside a macro
 		for (SizeType i = 0; i < n; ++i) {
 			const char c = value[i];
-			if (c == '\\') {
-				status = 1;
-				continue;
-			}
 
-			if (status == 0) {
-				retString += c;
-				continue;
-			}
-
-			if (isValidCharForMacroName(c)) {
-				macroName += c;
-			}
-			else {
-
-				int x = storageIndexByName(macroName);
-				if (x < 0)
-					err("No macro named " + macroName + "\n");
-
-				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value) + c;
+			if (status == 1) {
+				if (isValidCharForMacroName(c)) {
+					macroName += c;
+					continue;
+				}
 
+				// the macro name ends here
+				retString += macroValue(macroName);
 				macroName = "";
 				hasAtLeastOneMacro = true;
 				status = 0;
 			}
+
+			if (c == '\\')
+				status = 1;
+			else
+				retString += c;
+		}
+
+		if (status == 1) {
+			retString += macroValue(macroName);
+			hasAtLeastOneMacro = true;
 		}
 
 		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro,
 		                                           unquote(retString));
 	}
 
+	PsimagLite::String macroValue(const String& macroName) const
+	{
+		int x = storageIndexByName(macroName);
+		if (x < 0)
+			err("No macro named " + macroName + "\n");
+
+		assert(static_cast<SizeType>(x) < ainurVariables_.size());
+		return unquote(ainurVariables_[x].value);
+	}
+
 	static bool isValidCharForMacroName(char c)
 	{
 		const bool b1 = (c > 96 && c < 123);
-- 
2.43.0


From ae86df5d9d10b22c3c510d0d35364155b8befd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 061/109] fix: an Ainur function with an argument not in its
 table reads past the table

---
 src/Ainur/AinurMacros.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..1f70ac6 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -66,6 +66,8 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("No value for " + ttos(x) + " in " + filename_ + "\n");
 			return it->second;
 		}
 
-- 
2.43.0


From ad8ff7ff2a1ee3694f86da33c1f4b33e08a17666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 062/109] fix: blank lines in the table of an Ainur function
 are an error

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 1f70ac6..7f8b964 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -118,7 +118,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t')
 					return false;
 			}
 
-- 
2.43.0


From faa3434f67da61f162a6ff01fbc4d82322e54f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 063/109] fix: Ainur function tables with too few columns are
 read past the line

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 7f8b964..1f9e423 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -138,7 +138,7 @@ public:
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
 
-- 
2.43.0


From 82303412d40cbef6b129229cdd979f2eeffe2f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 064/109] fix: the separator of the table of an Ainur function
 is ignored

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 1f9e423..e5cfb63 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -137,7 +137,7 @@ public:
 				if (emptyLine(std::string(s)))
 					continue;
 				std::vector<std::string> tokens;
-				split(tokens, s);
+				split(tokens, s, separatorForSplit_);
 				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
-- 
2.43.0


From e1182b4a011f69e232505a9d40e0eb34a0a3e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 065/109] fix: long lines in the table of an Ainur function
 hang the program

---
 src/Ainur/AinurMacros.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e5cfb63..2cae169 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -18,8 +18,6 @@ public:
 
 	class AinurFunction {
 
-		static constexpr SizeType MAX_LINE = 2048;
-
 	public:
 
 		AinurFunction(const std::string& args)
@@ -131,15 +129,14 @@ public:
 				throw RuntimeError("Could not open " + filename_ + "\n");
 			}
 
-			char s[MAX_LINE];
-			while (!fin.eof()) {
-				fin.getline(s, MAX_LINE);
-				if (emptyLine(std::string(s)))
+			std::string s;
+			while (std::getline(fin, s)) {
+				if (emptyLine(s))
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s, separatorForSplit_);
 				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
-					throw RuntimeError("Line too small: " + std::string(s) + "\n");
+					throw RuntimeError("Line too small: " + s + "\n");
 				}
 
 				double vx = PsimagLite::atof(tokens[columnX_]);
-- 
2.43.0


From 4126079abe8dbf0b1021c90f81002cc790570674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:39 +0000
Subject: [PATCH 066/109] fix: values of Ainur functions are cut to six
 decimals

---
 src/Ainur/AinurMacros.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index 2cae169..fdaf51d 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -1,7 +1,9 @@
 #ifndef AINURMACROS_HH
 #define AINURMACROS_HH
 #include "../PsimagLite.h"
+#include <limits>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace PsimagLite {
@@ -210,7 +212,12 @@ public:
 		std::string argument = AinurFunction::deleteEnclosing(nameValue.second, '(', ')');
 		double x = PsimagLite::atof(argument);
 		double y = ainurFunctions_[index](x);
-		return std::to_string(y);
+
+		// std::to_string would keep six decimals only
+		std::ostringstream os;
+		os.precision(std::numeric_limits<double>::max_digits10);
+		os << y;
+		return os.str();
 	}
 
 private:
-- 
2.43.0


From 99c23aa3bb4251007fa3b41c5004c180f2dfb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 067/109] fix: an Ainur macro whose definition ends in a macro
 swallows the text after its use

---
 src/Ainur/AinurState.h | 50 ++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 91bca89..64c5572 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -227,43 +227,37 @@ private:
 	}
 
 	void expandMacrosRecursively()
-	{
-		static const SizeType avoidInfMax = 100;
-		SizeType avoidInfCounter = 0;
-		while (expandMacros()) {
-			if (avoidInfCounter++ > avoidInfMax) {
-				err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\n");
-			}
-		}
-	}
-
-	bool expandMacros()
 	{
 		const SizeType n = ainurVariables_.size();
-		bool atLeastOneValueHasMacro = false;
 		for (SizeType i = 0; i < n; ++i) {
 			if (!used_[i])
 				continue;
-			std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[i].value);
+			expandMacros(i, 0);
+		}
+	}
 
-			if (!macro.first)
-				continue;
+	void expandMacros(SizeType ind, SizeType depth)
+	{
+		static const SizeType avoidInfMax = 100;
+		if (depth > avoidInfMax)
+			err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\n");
 
-			if (macro.second.size() > 0 && macro.second[0] == '!') {
-				macro.second = ainurMacros_.procNativeMacro(macro.second);
-			}
+		std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[ind].value, depth);
 
-			ainurVariables_[i].value = macro.second;
-			ainurVariables_[i].opaque = "MACRO";
-			atLeastOneValueHasMacro = true;
+		if (!macro.first)
+			return;
+
+		if (macro.second.size() > 0 && macro.second[0] == '!') {
+			macro.second = ainurMacros_.procNativeMacro(macro.second);
 		}
 
-		return atLeastOneValueHasMacro;
+		ainurVariables_[ind].value = macro.second;
+		ainurVariables_[ind].opaque = "MACRO";
 	}
 
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
-	expandOneValue(const String& value) const
+	expandOneValue(const String& value, SizeType depth)
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -280,7 +274,7 @@ private:
 				}
 
 				// the macro name ends here
-				retString += macroValue(macroName);
+				retString += macroValue(macroName, depth);
 				macroName = "";
 				hasAtLeastOneMacro = true;
 				status = 0;
@@ -293,7 +287,7 @@ private:
 		}
 
 		if (status == 1) {
-			retString += macroValue(macroName);
+			retString += macroValue(macroName, depth);
 			hasAtLeastOneMacro = true;
 		}
 
@@ -301,13 +295,17 @@ private:
 		                                           unquote(retString));
 	}
 
-	PsimagLite::String macroValue(const String& macroName) const
+	PsimagLite::String macroValue(const String& macroName, SizeType depth)
 	{
 		int x = storageIndexByName(macroName);
 		if (x < 0)
 			err("No macro named " + macroName + "\n");
 
 		assert(static_cast<SizeType>(x) < ainurVariables_.size());
+
+		// expand the definition first, so that a use at its end isn't joined
+		// to the text that follows here
+		expandMacros(x, depth + 1);
 		return unquote(ainurVariables_[x].value);
 	}
 
-- 
2.43.0


From 445e704fdb61ec5b5bdf0e6b84d24d2683cedf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:15 +0000
Subject: [PATCH 068/109] fix: using an Ainur macro without a value inserts a
 NUL character

---
 src/Ainur/AinurState.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 64c5572..29449de 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -306,6 +306,8 @@ private:
 		// expand the definition first, so that a use at its end isn't joined
 		// to the text that follows here
 		expandMacros(x, depth + 1);
+		if (isEmptyValue(ainurVariables_[x].value))
+			err(errLabel(ERR_READ_NO_VALUE, macroName));
 		return unquote(ainurVariables_[x].value);
 	}
 
-- 
2.43.0


From 4d408baabdf3628c168336eebc0b4355b3fbdc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:43 +0000
Subject: [PATCH 069/109] fix: overwriting complex vectors in HDF5 archives
 keeps the old data

The dataset to be replaced was looked up outside the group that holds the
data, so that the new data were created elsewhere; and the mark that tells
real from complex vectors was never replaced.
---
 src/Io/IoNgSerializer.h | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..74eb7cd 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -234,12 +234,16 @@ public:
 		assert(0 < what.size());
 		const void* ptr = static_cast<const void*>(&what[0]);
 
+		const bool written = (allowOverwrite == ALLOW_OVERWRITE)
+		    ? overwrite<T>(name, ptr, dims, 1)
+		    : internalWrite<T>(name, ptr, dims, 1);
+		if (!written)
+			return;
+
 		if (Loki::TypeTraits<T>::isFloat)
-			writeComplexOrReal(name2, 'R');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+			writeComplexOrReal(name2, 'R', allowOverwrite);
+		else if (allowOverwrite == ALLOW_OVERWRITE)
+			removeComplexOrReal(name2);
 	}
 
 	template <typename T>
@@ -255,11 +259,11 @@ public:
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
 
-		writeComplexOrReal(name2, 'C');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		const bool written = (allowOverwrite == ALLOW_OVERWRITE)
+		    ? overwrite<T>(name, ptr, dims, 1)
+		    : internalWrite<T>(name, ptr, dims, 1);
+		if (written)
+			writeComplexOrReal(name2, 'C', allowOverwrite);
 	}
 
 	template <typename T>
@@ -803,10 +807,20 @@ private:
 		return x / 2;
 	}
 
-	void writeComplexOrReal(String name2, char content)
+	void writeComplexOrReal(String name2, char content, WriteMode allowOverwrite)
 	{
 		String nameComplexOrReal = name2 + "ComplexOrReal";
-		write(nameComplexOrReal, content);
+		write(nameComplexOrReal, content, allowOverwrite);
+	}
+
+	void removeComplexOrReal(String name2)
+	{
+		try {
+			hdf5file_->unlink("Def/" + name2 + "ComplexOrReal");
+		}
+		catch (H5::Exception&) {
+			// there was none
+		}
 	}
 
 	ReadEnum getReadEnumOnDisk(String name2)
-- 
2.43.0


From 4a6e2d8f8037c127d0d5c3092bcffeeeb262bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 070/109] fix: empty vectors and strings cannot be read from
 HDF5 archives

Empty vectors were not written at all, so that reading them failed, or gave
what had been there before when overwriting; empty strings were written but
refused when reading.
---
 src/Io/IoNgSerializer.h | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 74eb7cd..bebcfc7 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -226,13 +226,10 @@ public:
 	void
 	write(String name2, const std::vector<T>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = what.size();
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 
 		const bool written = (allowOverwrite == ALLOW_OVERWRITE)
 		    ? overwrite<T>(name, ptr, dims, 1)
@@ -250,11 +247,7 @@ public:
 	void
 	write(String name2, const std::vector<std::complex<T>>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
-
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
@@ -565,9 +558,6 @@ private:
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
-		if (n == 0)
-			throw RuntimeError("IoNgSerializer: problem reading "
-			                   "vector dims[0] == 0\n");
 
 		const ReadEnum readEnumOnDisk = getReadEnumOnDisk(name);
 		static const ReadEnum readEnumDest = getReadEnumDestination<
@@ -577,8 +567,11 @@ private:
 			SizeType complexSize = (readEnumDest == ReadEnum::COMPLEX) ? getHalfSize(n)
 			                                                           : n;
 			what.resize(complexSize, 0);
-			void* ptr = static_cast<void*>(&(what[0]));
-			dataset->read(ptr, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr = static_cast<void*>(&(what[0]));
+				dataset->read(ptr, typeToH5<UnderlyingType>());
+			}
+
 			delete[] dims;
 			delete dataset;
 			return;
@@ -589,8 +582,11 @@ private:
 			// this type is complex; but what's on disk is real
 			typename Vector<UnderlyingType>::Type temporary(
 			    dims[0]);
-			void* ptr2 = static_cast<void*>(&(temporary[0]));
-			dataset->read(ptr2, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr2 = static_cast<void*>(&(temporary[0]));
+				dataset->read(ptr2, typeToH5<UnderlyingType>());
+			}
+
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
-- 
2.43.0


From 6a545874b35be7285070a4848ec59687050b2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 071/109] fix: enumeration values above 255 or below 0 are
 damaged in HDF5 archives

Enumerations were written as one unsigned byte and read as unsigned numbers;
now the underlying type is used for both.
---
 src/Io/IoNgSerializer.h |  2 +-
 src/Io/TypeToH5.cpp     | 18 ++++++++++++++++++
 src/Io/TypeToH5.h       |  2 +-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index bebcfc7..c85e659 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -417,7 +417,7 @@ public:
 	template <typename SomeType>
 	void read(SomeType& value, String name, typename EnableIf<std::is_enum<SomeType>::value || IsEnumClass<SomeType>::value, int*>::Type = 0)
 	{
-		SizeType x = 0;
+		typename std::underlying_type<SomeType>::type x = 0;
 		read(x, name);
 		value = static_cast<SomeType>(x);
 	}
diff --git a/src/Io/TypeToH5.cpp b/src/Io/TypeToH5.cpp
index 8f4ecbc..db23f67 100644
--- a/src/Io/TypeToH5.cpp
+++ b/src/Io/TypeToH5.cpp
@@ -13,6 +13,12 @@ H5::PredType typeToH5<unsigned char>()
 	return H5::PredType::NATIVE_UCHAR;
 }
 
+template <>
+H5::PredType typeToH5<signed char>()
+{
+	return H5::PredType::NATIVE_SCHAR;
+}
+
 template <>
 H5::PredType typeToH5<bool>() { return H5::PredType::NATIVE_HBOOL; }
 
@@ -46,6 +52,18 @@ H5::PredType typeToH5<unsigned long>()
 	return H5::PredType::NATIVE_ULONG;
 }
 
+template <>
+H5::PredType typeToH5<long long>()
+{
+	return H5::PredType::NATIVE_LLONG;
+}
+
+template <>
+H5::PredType typeToH5<unsigned long long>()
+{
+	return H5::PredType::NATIVE_ULLONG;
+}
+
 template <>
 H5::PredType typeToH5<float>()
 {
diff --git a/src/Io/TypeToH5.h b/src/Io/TypeToH5.h
index 72da053..5ee785e 100644
--- a/src/Io/TypeToH5.h
+++ b/src/Io/TypeToH5.h
@@ -11,7 +11,7 @@ typename EnableIf<!std::is_enum<T>::value, H5::PredType>::Type typeToH5();
 template <typename T>
 typename EnableIf<std::is_enum<T>::value, H5::PredType>::Type typeToH5()
 {
-	return H5::PredType::NATIVE_UINT8;
+	return typeToH5<typename std::underlying_type<T>::type>();
 }
 } // namespace PsimagLite
 #endif // PSI_TYPETOH5_H
-- 
2.43.0


From 27039c170324daa42c98327f133e9001e07a238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 072/109] fix: a refused vector read keeps the HDF5 archive
 open

The dataset was not released when the type asked for was not the one stored,
so that the archive stayed open and could not be created again.
---
 src/Io/IoNgSerializer.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index c85e659..1bf8728 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -547,14 +547,14 @@ private:
 		typedef typename Real<typename SomeVectorType::value_type>::Type
 		    UnderlyingType;
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		const H5::DataSet dataset(hdf5file_->openDataSet("Def/" + name));
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector ndims != 1\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
@@ -569,11 +569,9 @@ private:
 			what.resize(complexSize, 0);
 			if (n > 0) {
 				void* ptr = static_cast<void*>(&(what[0]));
-				dataset->read(ptr, typeToH5<UnderlyingType>());
+				dataset.read(ptr, typeToH5<UnderlyingType>());
 			}
 
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -584,14 +582,12 @@ private:
 			    dims[0]);
 			if (n > 0) {
 				void* ptr2 = static_cast<void*>(&(temporary[0]));
-				dataset->read(ptr2, typeToH5<UnderlyingType>());
+				dataset.read(ptr2, typeToH5<UnderlyingType>());
 			}
 
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
-- 
2.43.0


From 16e6751adcdba6f627f6cbbd6c3a810f3968ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 073/109] fix: HDF5 archives opened in exclusive mode, or with
 open(), do not work

Exclusive mode did not create the group that holds the data, so that nothing
could be written and the destructor threw. Opening again with open() neither
created the group nor checked the mark of a complete archive nor took notice
of the mode, and refused archives stayed open.
---
 src/Io/IoNgSerializer.h | 67 ++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 1bf8728..17292c1 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -40,38 +40,7 @@ public:
 		dontPrintDebug();
 #endif
 
-		try {
-			hdf5file_ = new H5::H5File(filename, mode);
-		}
-		catch (H5::Exception& e) {
-			delete hdf5file_;
-			hdf5file_ = 0;
-			throw e;
-		}
-
-		if (mode == H5F_ACC_TRUNC) {
-			try {
-				createGroup("");
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
-
-		if (mode == H5F_ACC_RDONLY) {
-			try {
-				readCanary();
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
+		openFile();
 	}
 
 	~IoNgSerializer()
@@ -93,9 +62,8 @@ public:
 			    "IoNgSerializer::open(): object already open\n");
 
 		filename_ = filename;
-		hdf5file_ = new H5::H5File(filename, mode);
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		mode_ = mode;
+		openFile();
 	}
 
 	void close()
@@ -526,6 +494,25 @@ private:
 
 	IoNgSerializer& operator=(const IoNgSerializer&);
 
+	void openFile()
+	{
+		try {
+			hdf5file_ = new H5::H5File(filename_, mode_);
+
+			if (mode_ == H5F_ACC_TRUNC || mode_ == H5F_ACC_EXCL)
+				createGroup("");
+
+			if (mode_ == H5F_ACC_RDONLY)
+				readCanary();
+		}
+		catch (...) {
+			filename_ = "";
+			delete hdf5file_;
+			hdf5file_ = 0;
+			throw;
+		}
+	}
+
 	// We're reading from disk, so we go from type in disk to type in
 	// destination The type of destination is SomeVectorType The underlying
 	// type of destination is SomeVectorType::value_type Therefore, we have
@@ -668,14 +655,14 @@ private:
 	{
 		static const String name = "/Def/Canary";
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet(name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		const H5::DataSet dataset(hdf5file_->openDataSet(name));
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector<arith> (ndims)\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		if (dims[0] == 0)
@@ -684,9 +671,7 @@ private:
 
 		unsigned char c = 0;
 		void* ptr = static_cast<void*>(&c);
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete[] dims;
-		delete dataset;
+		dataset.read(ptr, typeToH5<unsigned char>());
 
 		if (c != CANARY_VALUE)
 			throw RuntimeError("File " + filename_ + " is not valid (dead canary)\n");
-- 
2.43.0


From f0f6b2991ce42aca6ae968811ccaaaef89053131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 074/109] fix: composite data written with permission to
 overwrite are lost if new

The group was only created without permission to overwrite, so that nothing
was written to a label that did not exist yet.
---
 src/CrsMatrix.h         | 2 +-
 src/Io/IoNgSerializer.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index cb83c1f..e5f6e9c 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -596,7 +596,7 @@ public:
 	{
 		if (nrow_ > 0)
 			checkValidity();
-		if (mode != IoSerializer::ALLOW_OVERWRITE)
+		if (mode != IoSerializer::ALLOW_OVERWRITE || !ioSerializer.doesGroupExist(label))
 			ioSerializer.createGroup(label);
 		ioSerializer.write(label + "/nrow_", nrow_, mode);
 		ioSerializer.write(label + "/ncol_", ncol_, mode);
diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 17292c1..dcc12fc 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -154,7 +154,7 @@ public:
 	template <typename T1, typename T2>
 	void write(String name2, const std::pair<T1, T2>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T1>::isArith && Loki::TypeTraits<T2>::isArith, int*>::Type = 0)
 	{
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/0", what.first, allowOverwrite);
 		write(name2 + "/1", what.second, allowOverwrite);
@@ -237,7 +237,7 @@ public:
 	    = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
@@ -269,7 +269,7 @@ public:
 	void write(String name2, const std::vector<T>& what, WriteMode allowOverwrite, typename EnableIf<!Loki::TypeTraits<typename Real<T>::Type>::isArith && !IsPairLike<T>::True && !IsEnumClass<T>::value, int*>::Type = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
-- 
2.43.0


From 24b00aef84d25ef611c54cd8f292aec9bbac2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 075/109] fix: reading an empty matrix from an HDF5 archive
 keeps earlier content

---
 src/CrsMatrix.h | 3 +++
 src/Matrix.h    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index e5f6e9c..3014749 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -618,6 +618,9 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		rowptr_.clear();
+		colind_.clear();
+		values_.clear();
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(rowptr_, label + "/rowptr_");
diff --git a/src/Matrix.h b/src/Matrix.h
index b561173..cca5ecb 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		data_.clear();
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(data_, label + "/data_");
-- 
2.43.0


From cf551c834c787e04fa7298dd289518d2c722e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 076/109] fix: Lanczos of a one by one matrix, or of one step,
 writes past the coefficients

---
 src/LanczosCore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..ddf671d 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (1 < max_nstep)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
-- 
2.43.0


From 3e1b34108741cac60abe90352e7bb4aa1c320980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 077/109] fix: Lanczos with fewer steps than the minimum writes
 past the stored vectors

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index ddf671d..cdb9ca8 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -240,7 +240,7 @@ public:
 			if (exitFlag && j >= params_.minSteps)
 				break;
 
-			if (lanczosVectors_.lotaMemory())
+			if (lanczosVectors_.lotaMemory() && j + 1 < max_nstep)
 				lanczosVectors_.saveVector(V2, j + 1);
 
 			for (SizeType i = 0; i < matsize; ++i) {
-- 
2.43.0


From 927b816ad0dfeb33eda0b38665b3da751f7d33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:47 +0000
Subject: [PATCH 078/109] fix: Lanczos reads past the eigenvalues if the state
 asked for does not exist

---
 src/LanczosSolver.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 4722237..578961a 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -40,6 +40,9 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited);
 
+		if (excited >= ab.size())
+			throw RuntimeError("Excited too big\n");
+
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
 		ab.buildDenseMatrix(ritz);
@@ -84,6 +87,9 @@ public:
 		SizeType n = z.size();
 		if (n > excited + 1)
 			n = excited + 1;
+		if (n > ab.size())
+			throw RuntimeError("Excited too big\n");
+
 		for (SizeType i = 0; i < n; ++i)
 			ls_.excitedVector(z[i], ritz, i);
 	}
-- 
2.43.0


From 5ddf5bdcf774ca1b2cf65e0c89881be38f42f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:47 +0000
Subject: [PATCH 079/109] fix: Lanczos stops before the state asked for has
 converged

---
 src/LanczosSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 578961a..71ca28b 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -38,7 +38,7 @@ public:
 		Profiling profiling("LanczosSolver", std::cout);
 
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		if (excited >= ab.size())
 			throw RuntimeError("Excited too big\n");
@@ -75,7 +75,7 @@ public:
 	void computeAllStatesBelow(VectorRealType& eigs, VectorVectorType& z, const VectorType& initialVector, SizeType excited)
 	{
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
 		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
-- 
2.43.0


From ecea21078143aa1229378244f148616c799a8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:49 +0000
Subject: [PATCH 080/109] fix: honeycomb lattices lack the Y bonds between
 columns and the periodic X ones

---
 src/Geometry/Honeycomb.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 37cab57..1f27511 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -246,13 +246,9 @@ private:
 		if (x1 == x2)
 			return isDirectionYsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
-		if (dy != 1)
-			return false;
-
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf3(y1) && (y2 < y1))
+		if ((dx == 1) && is4nPlus3(y1) && (y2 + 1 == y1))
 			return true;
 
 		if (!periodicX_)
@@ -263,7 +259,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf3(y2) && (y1 < y2));
+		return (is4nPlus3(y2) && (y1 + 1 == y2));
 	}
 
 	// assumes i1 < i2
@@ -272,13 +268,9 @@ private:
 		if (x1 == x2)
 			return isDirectionXsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
-		if (dy != 1)
-			return false;
-
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf4(y1) && (y1 < y2))
+		if ((dx == 1) && isMultipleOf4(y1) && (y1 + 1 == y2))
 			return true;
 
 		if (!periodicX_)
@@ -289,7 +281,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf4(y2) && (y2 < y1));
+		return (isMultipleOf4(y2) && (y2 + 1 == y1));
 	}
 
 	bool isDirectionYsameCol(SizeType y1, SizeType y2) const
@@ -320,7 +312,7 @@ private:
 		return false;
 	}
 
-	static bool isMultipleOf3(SizeType y) { return ((y % 3) == 0); }
+	static bool is4nPlus3(SizeType y) { return ((y % 4) == 3); }
 
 	static bool isMultipleOf4(SizeType y) { return ((y % 4) == 0); }
 
-- 
2.43.0


From 01c26a883ac9c5aa69b5a268d394c9974d54061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:49 +0000
Subject: [PATCH 081/109] fix: honeycomb fringe of the environment ignores the
 last site of the system

---
 src/Geometry/Honeycomb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 1f27511..dc870fa 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -156,7 +156,7 @@ public:
 			return isThereAneighbor(i, emin, linSize_);
 
 		if (i >= emin)
-			return isThereAneighbor(i, 0, smax);
+			return isThereAneighbor(i, 0, smax + 1);
 
 		return false;
 	}
-- 
2.43.0


From 1ed195b6faf1eea90605c727055096286f732bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 082/109] fix: MPI::allReduce of one number receives into a
 number of its type

---
 src/MpiYes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index ae72953..4f27735 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -467,7 +467,7 @@ namespace MPI {
 	typename EnableIf<Loki::TypeTraits<NumericType>::isArith, void>::Type
 	allReduce(NumericType& v, MPI_Op op = MPI_SUM, CommType mpiComm = COMM_WORLD)
 	{
-		int result = 0;
+		NumericType result = 0;
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
 		int errorCode = MPI_Allreduce(&v, &result, 1, datatype, op, mpiComm);
 		checkError(errorCode, "MPI_Allreduce", mpiComm);
-- 
2.43.0


From a6cd4bff501e6b4c2430748027ade11278b4acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 083/109] fix: MPI::send of a vector sends its length as the
 type MPI::recv receives

---
 src/MpiYes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 4f27735..2495642 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -194,7 +194,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
@@ -209,7 +209,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<typename NumericType::value_type>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), 2 * v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
-- 
2.43.0


From 22666faa6e2664a769f2611fb318d31b9e0e0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 084/109] fix: MPI::pointByPointGather sends to the root, in
 the communicator it is given

---
 src/MpiYes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 2495642..cbd8602 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -234,7 +234,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				MPI::send(v[taskNumber], 0, taskNumber);
+				MPI::send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -246,7 +246,7 @@ namespace MPI {
 					if (taskNumber >= v.size())
 						break;
 					NumericType value;
-					MPI::recv(value, r, taskNumber);
+					MPI::recv(value, r, taskNumber, mpiComm);
 					v[taskNumber] = value;
 				}
 			}
@@ -270,7 +270,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				v[taskNumber].send(0, taskNumber, mpiComm);
+				v[taskNumber].send(root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -303,7 +303,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				send(v[taskNumber], 0, taskNumber, mpiComm);
+				send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
-- 
2.43.0


From 4389ff04715ece69e3eddd15f27f5e5dc858fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 085/109] fix: MPI::bcast of a complex vector sends its length
 too

---
 src/MpiYes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index cbd8602..16e17c6 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -371,6 +371,10 @@ namespace MPI {
 	    void>::Type
 	bcast(SomeVectorType& v, int root = 0, CommType mpiComm = COMM_WORLD)
 	{
+		SizeType total = v.size();
+		bcast(total, root, mpiComm);
+		if (total != v.size())
+			v.resize(total, 0);
 		MPI_Datatype datatype = MpiData<typename SomeVectorType::value_type::value_type>::Type;
 		int errorCode = MPI_Bcast(&(v[0]), 2 * v.size(), datatype, root, mpiComm);
 		checkError(errorCode, "MPI_Bcast", mpiComm);
-- 
2.43.0


From 23a2b02519f9ab9786ee751da2bcbb0b5943231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 086/109] fix: MPI::bcast of a vector of vectors sends the
 number of vectors too

---
 src/MpiYes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 16e17c6..db78ec8 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -328,6 +328,11 @@ namespace MPI {
 	{
 		typedef typename SomeVectorType::value_type DataType;
 		String name = "MPI_Bcast";
+		int outerTotal = v.size();
+		int outerError = MPI_Bcast(&outerTotal, 1, MPI_INTEGER, root, mpiComm);
+		checkError(outerError, name, mpiComm);
+		if (static_cast<SizeType>(outerTotal) != v.size())
+			v.resize(outerTotal);
 		for (SizeType i = 0; i < v.size(); i++) {
 			DataType& vv = v[i];
 			int total = vv.size();
-- 
2.43.0


From 16cd5daf503508633d588189e3ae33c0cf309213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:53 +0000
Subject: [PATCH 087/109] fix: unsigned numbers are reduced as unsigned by MPI

---
 src/MpiYes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MpiYes.cpp b/src/MpiYes.cpp
index 23db6e2..d0104e5 100644
--- a/src/MpiYes.cpp
+++ b/src/MpiYes.cpp
@@ -84,10 +84,10 @@ namespace MPI {
 	CommType COMM_WORLD = MPI_COMM_WORLD;
 
 	template <>
-	const MPI_Datatype MpiData<unsigned int long>::Type = MPI_LONG;
+	const MPI_Datatype MpiData<unsigned int long>::Type = MPI_UNSIGNED_LONG;
 
 	template <>
-	const MPI_Datatype MpiData<unsigned int>::Type = MPI_INTEGER;
+	const MPI_Datatype MpiData<unsigned int>::Type = MPI_UNSIGNED;
 
 	template <>
 	const MPI_Datatype MpiData<double>::Type = MPI_DOUBLE;
-- 
2.43.0


From 014ea5f30ea526047b93f63fff1660df0d82c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 088/109] fix: MPI::bcast of a pair reports errors

---
 src/MpiYes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index db78ec8..d117235 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -393,10 +393,12 @@ namespace MPI {
 		T1 t1 = p.first;
 		MPI_Datatype datatype = MpiData<T1>::Type;
 		int errorCode = MPI_Bcast(&t1, 1, datatype, root, mpiComm);
+		checkError(errorCode, "MPI_Bcast", mpiComm);
 
 		T2 t2 = p.second;
 		MPI_Datatype datatype2 = MpiData<T2>::Type;
 		errorCode = MPI_Bcast(&t2, 1, datatype2, root, mpiComm);
+		checkError(errorCode, "MPI_Bcast", mpiComm);
 
 		p = std::pair<T1, T2>(t1, t2);
 	}
-- 
2.43.0


From 41d284dc87ac03dee1fa66590e787802089b5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 089/109] fix: exp and expIpi of a complex matrix are not
 transposed

---
 src/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index cca5ecb..2a89659 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1038,7 +1038,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * tmp * PsimagLite::conj(m(j, k));
 			}
 			expm(i, j) = sum;
 		}
@@ -1106,7 +1106,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From bcf2d6c3ed34b91ad99912e07bffe4d86bc7ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:54 +0000
Subject: [PATCH 090/109] fix: LinearPrediction reports equations without a
 solution

---
 src/LinearPrediction.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..e64ab70 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -218,6 +218,8 @@ private:
 		    p); // use signed integers here!!
 		int info = 0;
 		psimag::LAPACK::GETRF(p, p, &(A(0, 0)), p, &(ipiv[0]), info);
+		if (info != 0)
+			throw RuntimeError("LinearPrediction: singular matrix\n");
 
 		typename Vector<FieldType>::Type work(2);
 		int lwork = -1; // query mode
-- 
2.43.0


From 8e7053502a5ed96b2dabe4e3269caf0faefd0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 091/109] fix: maps read from input files have only the entries
 of their own label

---
 src/InputNg.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 32e7e42..9ae747f 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -909,11 +909,8 @@ public:
 			     it != mapStrStr_.end();
 			     ++it) {
 				String mystr = it->first;
-				long unsigned int it0 = mystr.find(label2);
-				if (it0 == String::npos)
-					continue;
-				String::iterator it1 = find(mystr.begin(), mystr.end(), '[');
-				if (it1 == mystr.end())
+				long unsigned int it0 = mystr.find(label2 + "[");
+				if (it0 != 0)
 					continue;
 				String::iterator it2 = find(mystr.begin(), mystr.end(), ']');
 				if (it2 == mystr.end()) {
-- 
2.43.0


From 7ca766d9de6e1fcd56c78f3c3a08a606b443c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 092/109] fix: ChebyshevSolver could not be constructed

The spectrum bounds come from a Lanczos solver with default parameters,
which ask for an unsupported storage mode.
---
 src/ChebyshevSolver.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index da3bbca..16a58e9 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -322,6 +322,7 @@ private:
 		progress_.printline(msgg, std::cout);
 
 		SolverParametersType params;
+		params.lotaMemory = true;
 		InternalMatrix mat2(mat_);
 		RealType eMax = 0;
 		LanczosSolver<SolverParametersType, InternalMatrix, VectorType>
-- 
2.43.0


From 7ca80394d34cf08821ccc8cce6bc32b3a2bbe83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 093/109] fix: ChebyshevSolver::decomposition took the number
 of steps from storage not there yet

---
 src/ChebyshevSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index 16a58e9..d3bfa7a 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -182,7 +182,7 @@ public:
 		VectorType x(initVector.size(), 0.0);
 		VectorType y = initVector;
 
-		lanczosVectors_.prepareMemory(y.size(), lanczosVectors_.cols());
+		lanczosVectors_.prepareMemory(y.size(), params_.steps);
 		ab.resize(2 * params_.steps, 0);
 		SizeType cols = lanczosVectors_.cols();
 		for (SizeType j = 0; j < cols; ++j) {
-- 
2.43.0


From 45265ed97ddcdd8bc05750108cf0688902ff6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 094/109] fix: Chebyshev moments of order two and above were
 off by the moment of order zero or one

The moment of order 2n is 2<n|n> minus the moment of order zero, which is
<0|0> itself; likewise for the odd ones.
---
 src/ChebyshevSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index d3bfa7a..d1b4482 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -192,8 +192,8 @@ public:
 			RealType atmp = 0;
 			RealType btmp = 0;
 			oneStepDec(x, y, atmp, btmp, j);
-			ab.a(j) = 2 * atmp - ab.a(0);
-			ab.b(j) = 2 * btmp - ab.b(0);
+			ab.a(j) = (j == 0) ? atmp : 2 * atmp - ab.a(0);
+			ab.b(j) = (j == 0) ? btmp : 2 * btmp - ab.b(0);
 		}
 
 		// lanczosVectors_.resize(cols); <--- not needed because all
-- 
2.43.0


From 89ba4eb5665f9c7695d2e5deb09ac70feff1cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 095/109] fix: Chebyshev scaling did not cover the spectrum of
 definite matrices

Multiplying both bounds by three moves an interval that does not contain
zero away from itself.
---
 src/ChebyshevSolver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index d1b4482..015babd 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -340,8 +340,9 @@ private:
 		lanczosSolver.computeOneState(eMin, z, init, 0);
 
 		eMax = -eMax;
-		eMax *= 3;
-		eMin *= 3;
+		const RealType width = eMax - eMin;
+		eMax += width;
+		eMin -= width;
 		assert(eMax - eMin > 1e-2);
 
 		params_.oneOverA = 2.0 / (eMax - eMin);
-- 
2.43.0


From feca8588129987e48aa3309fec235c3cec0493f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 096/109] fix: plot of less than six Chebyshev moments read out
 of range

---
 src/ChebyshevSerializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 6e19cb4..838b222 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -145,7 +145,8 @@ public:
 		if (result.size() == 0)
 			result.resize(n);
 		RealType offset = params_.Eg;
-		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
+		if (gn.size() > 5)
+			std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
-- 
2.43.0


From 46ac5c89543cf7f3885b7a724f23b78d9ed6e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 097/109] fix: Chebyshev plot of a range shorter than its step
 wrote out of range

---
 src/ChebyshevSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 838b222..e3509b8 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -147,7 +147,7 @@ public:
 		RealType offset = params_.Eg;
 		if (gn.size() > 5)
 			std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
-		for (RealType omega = params.omega1; omega < params.omega2;
+		for (RealType omega = params.omega1; omega < params.omega2 && counter < result.size();
 		     omega += params.deltaOmega) {
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
 
-- 
2.43.0


From a33d6b23a513a3bbc321e4787647eadac302f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 098/109] fix: ChebyshevSerializer could not be written, nor
 read back

Moments had no output, labels got a second equal sign, and the reader did
not make room for the moments and stopped at parameters that are not saved.
---
 src/ChebyshevSerializer.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index e3509b8..50561c9 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -99,11 +99,15 @@ public:
 	template <typename IoInputType>
 	ChebyshevSerializer(IoInputType& io)
 	    : progress_("ChebyshevSerializer")
-	    , params_(io, "#Chebyshev")
 	{
+		io.readline(params_.Eg, "#ChebyshevEnergy=");
+		io.readline(params_.oneOverA, "#ChebyshevOneOverA=");
+		io.readline(params_.b, "#ChebyshevB=");
 		VectorRealType tmp;
 		io.read(tmp, "#ChebyshevMoments");
 		SizeType n = tmp.size() / 2;
+		if (n > 0)
+			moments_.resize(2 * n, 0);
 		for (SizeType i = 0; i < n; ++i) {
 			moments_.a(i) = tmp[2 * i];
 			moments_.b(i) = tmp[2 * i + 1];
@@ -121,10 +125,13 @@ public:
 	void write(IoSimple::Out& io, String) const
 	{
 		io.write(0, stringMarker_);
-		io.write(params_.Eg, "#ChebyshevEnergy=");
-		io.write(params_.oneOverA, "#ChebyshevOneOverA=");
-		io.write(params_.b, "#ChebyshevB=");
-		io.write(moments_, "#ChebyshevMoments");
+		io.write(params_.Eg, "#ChebyshevEnergy");
+		io.write(params_.oneOverA, "#ChebyshevOneOverA");
+		io.write(params_.b, "#ChebyshevB");
+		VectorRealType tmp(moments_.size());
+		for (SizeType i = 0; i < tmp.size(); ++i)
+			tmp[i] = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
+		io.write(tmp, "#ChebyshevMoments");
 	}
 
 	static const String& stringMarker() { return stringMarker_; }
-- 
2.43.0


From f1ad65d78b31a689d0f12c28dd0dd5d2572770e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 099/109] fix: a progress message printed from a used holder
 kept the tail of the previous one

---
 src/ProgressIndicator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 7904590..96ddcfe 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -154,15 +154,15 @@ public:
 		if (rank_ != 0)
 			return;
 		prefix(os);
-		os << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		const String message = s().str();
+		os << message << "\n";
+		s().str("");
 
 		if (!bufferActive_)
 			return;
 
 		prefix(buffer_);
-		buffer_() << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		buffer_() << message << "\n";
 	}
 
 	void print(const String& something, std::ostream& os) const
-- 
2.43.0


From dd219e3999dbb0df9cf057347bca370b68e9bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:16 +0000
Subject: [PATCH 100/109] fix: the value of a memory entry without text kept a
 blank

---
 src/MemoryUsage.h | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/MemoryUsage.h b/src/MemoryUsage.h
index 8847eda..ce3ce42 100644
--- a/src/MemoryUsage.h
+++ b/src/MemoryUsage.h
@@ -172,20 +172,8 @@ public:
 		if (y == String::npos)
 			len = data_.length() - x;
 		String s2 = data_.substr(x, len);
-		x = 0;
-		const SizeType n = s2.length();
-		for (SizeType i = 0; i < n; ++i) {
-			++x;
-			if (s2.at(i) == ' ' || s2.at(i) == '\t')
-				continue;
-			else
-				break;
-		}
-
-		if (x > 0)
-			--x;
-		len = s2.length() - x;
-		return s2.substr(x, len);
+		x = s2.find_first_not_of(" \t");
+		return (x == String::npos) ? "" : s2.substr(x);
 	}
 
 	TimeHandle time() const
-- 
2.43.0


From 5464ac8f30d1b9be9046c4ec0b312c774c026949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:26 +0000
Subject: [PATCH 101/109] fix: keep tiny complex entries when a dense matrix is
 made sparse

---
 src/CrsMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3014749..11c7026 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -178,14 +178,14 @@ public:
 	explicit CrsMatrix(const Matrix<T>& a)
 	{
 		int counter = 0;
-		double eps = 0;
+		const T zval = 0.0;
 
 		resize(a.rows(), a.cols());
 
 		for (SizeType i = 0; i < a.rows(); i++) {
 			setRow(i, counter);
 			for (SizeType j = 0; j < a.cols(); j++) {
-				if (PsimagLite::norm(a(i, j)) <= eps)
+				if (a(i, j) == zval)
 					continue;
 				pushValue(a(i, j));
 				pushCol(j);
-- 
2.43.0


From bba2ce164403dac2b5d1c4c21f2bc0cef0eb45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:26 +0000
Subject: [PATCH 102/109] fix: isZero of a complex matrix must not take tiny
 entries for zero

---
 src/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 2a89659..4619d1c 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -877,7 +877,7 @@ bool isZero(Matrix<std::complex<T>> const& a)
 
 	for (SizeType i = 0; i < a.rows(); i++)
 		for (SizeType j = 0; j < a.cols(); j++)
-			if (PsimagLite::norm(a(i, j)) > 0)
+			if (std::abs(a(i, j)) > 0)
 				return false;
 	return true;
 }
-- 
2.43.0


From f63f17e8c9548fe9f695ac7a9f36457e57920354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:39 +0000
Subject: [PATCH 103/109] fix: InputNg: a negative number for an unsigned label
 is an error

---
 src/InputNg.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 9ae747f..fb8013b 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -92,6 +92,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 namespace PsimagLite {
@@ -747,7 +748,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = nonNegative(it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -787,7 +788,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = nonNegative(it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -1029,9 +1030,12 @@ public:
 		    typename Real<ComplexOrRealType>::Type>::Type
 		stringToComplexOrReal(const String& s) const
 		{
+			const double value = stringToReal(s);
+			if (value < 0 && !std::numeric_limits<ComplexOrRealType>::is_signed)
+				throw RuntimeError(s + " must not be negative\n");
+
 			return static_cast<
-			    typename Real<ComplexOrRealType>::Type>(
-			    stringToReal(s));
+			    typename Real<ComplexOrRealType>::Type>(value);
 		}
 
 		template <typename ComplexOrRealType>
@@ -1042,6 +1046,15 @@ public:
 			return s;
 		}
 
+		static SizeType nonNegative(const String& s)
+		{
+			const int value = atoi(s);
+			if (value < 0)
+				throw RuntimeError(s + " must not be negative\n");
+
+			return value;
+		}
+
 		double stringToReal(const String& s) const
 		{
 			for (SizeType i = 0; i < s.length(); ++i) {
-- 
2.43.0


From d5f5d260f2b43bf2f826e44a0e7aed0cd7cc91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:43 +0000
Subject: [PATCH 104/109] fix: fringe of a ladder cut within its first column

---
 src/Geometry/Ladder.h  | 2 +-
 src/Geometry/LadderX.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 2cb89fe..85c5aee 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -187,7 +187,7 @@ public:
 		if (smax + 1 == emin)
 			r = leg_; // finite loops
 
-		bool a = (i < emin && i >= smax - r + 1);
+		bool a = (i < emin && (i >= smax || smax - i < r));
 		bool b = (i > smax && i <= emin + r - 1);
 		return (a || b);
 	}
diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index 7a04051..7d3a151 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -171,11 +171,11 @@ public:
 
 	bool fringe(SizeType i, SizeType smax, SizeType emin) const
 	{
-		bool a = (i < emin && i >= smax - 1);
+		bool a = (i < emin && (i >= smax || smax - i <= 1));
 		bool b = (i > smax && i <= emin + 1);
 		if (smax & 1)
 			return (a || b);
-		a = (i < emin && i >= smax - 2);
+		a = (i < emin && (i >= smax || smax - i <= 2));
 		b = (i > smax && i <= emin + 2);
 		return (a || b);
 	}
-- 
2.43.0


From 26ef79faeab0ca7a7119e094f7402e640ad863f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:41 +0000
Subject: [PATCH 105/109] fix: reading a negative Ainur value as an unsigned
 integer is an error

---
 src/Ainur/AinurComplex.hh | 13 +++++++++++--
 src/Ainur/AinurConvert.hh |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurComplex.hh b/src/Ainur/AinurComplex.hh
index 6e788e2..2e2b0c5 100644
--- a/src/Ainur/AinurComplex.hh
+++ b/src/Ainur/AinurComplex.hh
@@ -10,12 +10,12 @@ struct AinurComplex {
 
 	static void convert(long unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		t = nonNegative(str);
 	}
 
 	static void convert(long int& t, std::string str)
@@ -55,6 +55,15 @@ struct AinurComplex {
 
 private:
 
+	static unsigned int nonNegative(std::string str)
+	{
+		const int value = PsimagLite::atoi(str);
+		if (value < 0)
+			throw RuntimeError(str + " must not be negative\n");
+
+		return value;
+	}
+
 	template <typename RealType>
 	static std::complex<RealType> toComplex(std::string str)
 	{
diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index c140985..58ba0be 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -3,6 +3,7 @@
 #include "../Matrix.h"
 #include "../PsimagLite.h"
 #include "AinurMacros.hh"
+#include <type_traits>
 
 namespace PsimagLite {
 
@@ -77,7 +78,10 @@ public:
 		String label = ainurMacros_.valueFromFunction(ainurVariable.value);
 
 		try {
-			t = PsimagLite::atoi(label.c_str());
+			const int value = PsimagLite::atoi(label.c_str());
+			if (value < 0 && std::is_unsigned<T>::value)
+				throw RuntimeError(label + " must not be negative\n");
+			t = value;
 		}
 		catch (...) {
 			err("FATAL: AinurState: Label " + label + " must be an integer\n");
-- 
2.43.0


From 60b8db820cd4d1e58306604190cbe77e174319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:41 +0000
Subject: [PATCH 106/109] fix: ranks other than the first do not write or close
 a text file they did not open

---
 src/Io/IoSimple.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3370044..7f8828e 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -173,6 +173,8 @@ public:
 		{
 			if (filename_ == "OSTREAM")
 				throw RuntimeError("close: not possible\n");
+			if (rank_ != 0)
+				return;
 			fout_->close();
 		}
 
@@ -201,6 +203,8 @@ public:
 		template <typename T>
 		void write(const T& x, const String& label, typename EnableIf<PrintWithEqualSign<T>::True, int>::Type = 0)
 		{
+			if (rank_ != 0)
+				return;
 			(*fout_) << label << "=" << x << "\n";
 		}
 
-- 
2.43.0


From cb81567d03e345af5125dafc882cc78ebd959462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:42 +0000
Subject: [PATCH 107/109] fix: the memory report is not repeated, with all kept
 messages, while buffering

---
 src/ProgressIndicator.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 96ddcfe..30d75c3 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -190,13 +190,6 @@ public:
 		msg() << "Current virtual memory is " << vmSize
 		      << " maximum was " << vmPeak;
 		printline(msg, std::cout);
-
-		if (!bufferActive_)
-			return;
-
-		buffer_() << "Current virtual memory is " << vmSize
-		          << " maximum was " << vmPeak;
-		printline(buffer_, std::cout);
 	}
 
 	static MemoryUsage::TimeHandle time() { return musage_.time(); }
-- 
2.43.0


From 2fcd5039a4a54e811d1ed9275ad17612d7f254f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:55 +0000
Subject: [PATCH 108/109] fix: scaling a vector or matrix by one of its own
 entries

---
 src/CrsMatrix.h |  3 ++-
 src/Matrix.h    |  3 ++-
 src/Vector.h    | 34 ++++++++++++++++++++++------------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 11c7026..f3fa3ee 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -536,8 +536,9 @@ public:
 	          CrsMatrix,
 	          std::ClosureOperations::OP_MULT>& c)
 	{
+		const T1 factor = c.r1; // a copy, in case it is an entry of this matrix
 		*this = c.r2;
-		this->values_ *= c.r1;
+		this->values_ *= factor;
 		return *this;
 	}
 
diff --git a/src/Matrix.h b/src/Matrix.h
index 4619d1c..a571395 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -321,8 +321,9 @@ public:
 
 	Matrix<T>& operator*=(const T& value)
 	{
+		const T factor = value; // a copy, in case it is an entry of this matrix
 		for (SizeType i = 0; i < ncol_ * nrow_; i++)
-			data_[i] *= value;
+			data_[i] *= factor;
 		return *this;
 	}
 
diff --git a/src/Vector.h b/src/Vector.h
index 240826e..3363af9 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -168,9 +168,10 @@ operator<=(
     vector<T2, A>& v,
     const ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>& c)
 {
+	const T1 factor = c.r1; // a copy, in case it is an entry of v
 	v = c.r2;
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] *= c.r1;
+		v[i] *= factor;
 }
 
 template <typename T1, typename T2, typename A>
@@ -183,8 +184,8 @@ operator<=(
         ClosureOperator<T2, std::vector<T2, A>, ClosureOperations::OP_MULT>,
         ClosureOperations::OP_MULT>& c)
 {
+	T2 tmp = c.r1 * c.r2.r1; // before v changes, in case of an entry of v
 	v = c.r2.r2;
-	T2 tmp = c.r1 * c.r2.r1;
 	for (SizeType i = 0; i < v.size(); i++)
 		v[i] *= tmp;
 }
@@ -230,9 +231,10 @@ void operator<=(
         ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>,
         ClosureOperations::OP_PLUS>& c)
 {
+	const T1 factor = c.r2.r1;
 	v.resize(c.r1.size());
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] = c.r1[i] + c.r2.r1 * c.r2.r2[i];
+		v[i] = c.r1[i] + factor * c.r2.r2[i];
 }
 
 template <typename T1, typename T2, typename A1, typename A2>
@@ -243,9 +245,10 @@ void operator<=(
         vector<T1, A1>,
         ClosureOperations::OP_PLUS>& c)
 {
+	const T1 factor = c.r1.r1;
 	v.resize(c.r2.size());
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] = c.r1.r1 * c.r1.r2[i] + c.r2[i];
+		v[i] = factor * c.r1.r2[i] + c.r2[i];
 }
 
 template <typename T1, typename T2, typename A>
@@ -255,9 +258,10 @@ void operator<=(
                           ClosureOperator<vector<T2, A>, vector<T2, A>, ClosureOperations::OP_PLUS>,
                           ClosureOperations::OP_MULT>& c)
 {
+	const T1 factor = c.r1;
 	v.resize(c.r2.r2.size());
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] = c.r1 * (c.r2.r1[i] + c.r2.r2[i]);
+		v[i] = factor * (c.r2.r1[i] + c.r2.r2[i]);
 }
 
 template <typename T1, typename T2, typename A>
@@ -274,11 +278,11 @@ void operator<=(
         ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>,
         ClosureOperations::OP_PLUS>& c)
 {
-	v.resize(c.r2.r2.size());
 	T1 m1 = c.r2.r1;
 	T1 m2 = c.r1.r2.r1;
 	T1 m3 = c.r1.r1.r2.r1;
 	T1 m4 = c.r1.r1.r1.r1;
+	v.resize(c.r2.r2.size());
 	const vector<T2, A>& k1 = c.r2.r2;
 	const vector<T2, A>& k2 = c.r1.r2.r2;
 	const vector<T2, A>& k3 = c.r1.r1.r2.r2;
@@ -321,9 +325,10 @@ void operator<=(
         ClosureOperator<T1, vector<T2, A2>, ClosureOperations::OP_MULT>,
         ClosureOperations::OP_MINUS>& c)
 {
+	const T1 factor = c.r2.r1;
 	v.resize(c.r1.size());
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] = c.r1[i] - c.r2.r1 * c.r2.r2[i];
+		v[i] = c.r1[i] - factor * c.r2.r2[i];
 }
 
 template <typename T1, typename T2, typename A>
@@ -333,9 +338,10 @@ void operator<=(
                           ClosureOperator<vector<T2, A>, vector<T2, A>, ClosureOperations::OP_MINUS>,
                           ClosureOperations::OP_MULT>& c)
 {
+	const T1 factor = c.r1;
 	v.resize(c.r2.r2.size());
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] = c.r1 * (c.r2.r1[i] - c.r2.r2[i]);
+		v[i] = factor * (c.r2.r1[i] - c.r2.r2[i]);
 }
 
 template <typename T1, typename T2, typename A>
@@ -375,8 +381,9 @@ vector<T2, A> operator+=(
     vector<T2, A>& v,
     const ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>& w)
 {
+	const T1 factor = w.r1;
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] += w.r1 * w.r2[i];
+		v[i] += factor * w.r2[i];
 	return v;
 }
 
@@ -395,8 +402,9 @@ vector<T2, A> operator-=(
     vector<T2, A>& v,
     const ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>& w)
 {
+	const T1 factor = w.r1;
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] -= w.r1 * w.r2[i];
+		v[i] -= factor * w.r2[i];
 	return v;
 }
 
@@ -404,16 +412,18 @@ vector<T2, A> operator-=(
 template <typename T1, typename T2, typename A>
 vector<T1, A> operator*=(vector<T1, A>& v, const T2& t2)
 {
+	const T2 factor = t2;
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] *= t2;
+		v[i] *= factor;
 	return v;
 }
 
 template <typename T1, typename T2, typename A>
 vector<T1, A> operator/=(vector<T1, A>& v, const T2& t2)
 {
+	const T2 divisor = t2;
 	for (SizeType i = 0; i < v.size(); i++)
-		v[i] /= t2;
+		v[i] /= divisor;
 	return v;
 }
 
-- 
2.43.0


From a78ee78dea0df7099c2270367efe12426cc3c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:25 +0000
Subject: [PATCH 109/109] fix: a labelled number that ends the file is found

---
 src/Io/IoSimple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 7f8828e..624584f 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -300,8 +300,8 @@ public:
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
 				fin_ >> temp;
-				if (fin_.eof())
-					break;
+				if (!fin_)
+					break; // the last word may end with the file
 				if (temp.substr(0, s.size()) == s) {
 					foundOnce = true;
 					IstringStream temp2(
-- 
2.43.0

