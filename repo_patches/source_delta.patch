From bfea0ce1aac709e2b1f99fd0b540efde34fcbe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 01/57] fix: BLAS HEMM passes the leading dimension of its
 second matrix

---
 src/BLAS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 1dd9b32..78630a0 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -413,13 +413,13 @@ namespace BLAS {
 		zsymm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// ---------------------------------------------------------------------------
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<float>& a, const std::complex<float>* x, IntegerForBlasType sx, const std::complex<float>* y, IntegerForBlasType sy, const std::complex<float>& b, std::complex<float>* z, IntegerForBlasType sz)
 	{
-		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		chemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
-	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
+	inline void HEMM(char c1, char c2, IntegerForBlasType sX, IntegerForBlasType sY, const std::complex<double>& a, const std::complex<double>* x, IntegerForBlasType sx, const std::complex<double>* y, IntegerForBlasType sy, const std::complex<double>& b, std::complex<double>* z, IntegerForBlasType sz)
 	{
-		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sx, &b, z, &sz);
+		zhemm_(&c1, &c2, &sX, &sY, &a, x, &sx, y, &sy, &b, z, &sz);
 	}
 	// **************************************************************************
 	inline void SYRK(char UPLO, char TRANS, IntegerForBlasType N, IntegerForBlasType K, const float& ALPHA, const float* A, IntegerForBlasType LDA, const float& BETA, float* C, IntegerForBlasType LDC)
-- 
2.43.0


From e8f140f742fdd80d93e9e2385464b84d3ad949df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 02/57] fix: BLAS HPR for double complex takes a double complex
 packed matrix

---
 src/BLAS.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BLAS.h b/src/BLAS.h
index 78630a0..c25a265 100644
--- a/src/BLAS.h
+++ b/src/BLAS.h
@@ -265,7 +265,7 @@ namespace BLAS {
 	// ******************************************************************************
 	extern "C" void chpr_(char*, IntegerForBlasType*, const std::complex<float>*, const std::complex<float>*, IntegerForBlasType*, std::complex<float>*);
 
-	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<float>*);
+	extern "C" void zhpr_(char*, IntegerForBlasType*, const std::complex<double>*, const std::complex<double>*, IntegerForBlasType*, std::complex<double>*);
 	// ******************************************************************************
 	// *                         HER2
 	// ******************************************************************************
@@ -743,7 +743,7 @@ namespace BLAS {
 	{
 		chpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<float>* ap)
+	inline void HPR(char uplo, IntegerForBlasType n, const std::complex<double>& alpha, const std::complex<double>* x, IntegerForBlasType incx, std::complex<double>* ap)
 	{
 		zhpr_(&uplo, &n, &alpha, x, &incx, ap);
 	}
-- 
2.43.0


From ea5035ef647a7dfb1be46a43dc897fb393e96b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 03/57] fix: CrsMatrix built from row, column and value lists
 has correct row offsets

---
 src/CrsMatrix.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..a45360e 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -208,23 +208,18 @@ public:
 		Vector<SizeType>::Type iperm(rows2.size());
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType nextRow = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// rows with no entries start where the next row does
+			for (; nextRow <= rows[i]; ++nextRow)
+				rowptr_[nextRow] = i;
 
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		for (; nextRow <= rank; ++nextRow)
+			rowptr_[nextRow] = rows.size();
 	}
 
 	// start closure ctors
-- 
2.43.0


From 35f8e3a159e7b575708ce0138a9109f65d55ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 04/57] fix: SampleCRSMatrix row offsets count entries and not
 rows

---
 src/SampleCRSMatrix.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..1cf149e 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -203,21 +203,16 @@ private:
 		Sort<typename Vector<SizeType>::Type> s;
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
-		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
+		SizeType nextRow = 0;
 		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
-			}
+			// rows with no entries start where the next row does
+			for (; nextRow <= rows[i]; ++nextRow)
+				rowptr_[nextRow] = i;
 			colind_.push_back(cols[iperm[i]]);
 			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+		for (; nextRow <= rank_; ++nextRow)
+			rowptr_[nextRow] = rows.size();
 	}
 
 	SizeType rank_;
-- 
2.43.0


From 45a82318799dbd0e3401fa54580748195c3f4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 05/57] fix: inverse() reports a failed or singular LU
 factorisation

---
 src/Matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..3505ce1 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -609,6 +609,8 @@ inverse(Matrix<T>& m)
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
 	psimag::LAPACK::GETRF(n, n, &(m(0, 0)), n, &(ipiv[0]), info);
+	if (info != 0)
+		throw RuntimeError("inverse: getrf_ failed\n");
 	int lwork = -1;
 	typename Vector<T>::Type work(2);
 	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
@@ -632,6 +634,8 @@ inverse(Matrix<T>& m)
 	int info = 0;
 	Vector<int>::Type ipiv(n, 0);
 	psimag::LAPACK::GETRF(n, n, &(m(0, 0)), n, &(ipiv[0]), info);
+	if (info != 0)
+		throw RuntimeError("inverse: getrf_ failed\n");
 	int lwork = -1;
 	typename Vector<T>::Type work(2);
 	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
-- 
2.43.0


From 1336b023c309f1d4556a4f9519066b998639359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 06/57] fix: LinearPrediction reports LAPACK failures

---
 src/LinearPrediction.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..fca7875 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -218,6 +218,8 @@ private:
 		    p); // use signed integers here!!
 		int info = 0;
 		psimag::LAPACK::GETRF(p, p, &(A(0, 0)), p, &(ipiv[0]), info);
+		if (info != 0)
+			throw RuntimeError("LinearPrediction:: getrf_ failed\n");
 
 		typename Vector<FieldType>::Type work(2);
 		int lwork = -1; // query mode
@@ -229,6 +231,8 @@ private:
 		work.resize(lwork);
 		// actual work:
 		psimag::LAPACK::GETRI(p, &(A(0, 0)), p, &(ipiv[0]), &(work[0]), lwork, info);
+		if (info != 0)
+			throw RuntimeError("LinearPrediction:: getri_ failed\n");
 
 		d_.resize(p);
 		psimag::BLAS::GEMV('N', p, p, 1.0, &(A(0, 0)), p, &(B[0]), 1, 0.0, &(d_[0]), 1);
-- 
2.43.0


From 69077c5f4f64773058a594556a5aabfc90c07b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 07/57] fix: initialise thread attributes before setting the
 stack size

---
 src/Parallelizer2Pthread.h | 8 ++++----
 src/PthreadsNg.h           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..f178de4 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -134,7 +134,10 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -154,9 +157,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..0492a70 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,10 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,9 +260,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 #ifndef __APPLE__
 			if (setAffinities_)
 				setAffinity(attr[j], &cpuset, j);
-- 
2.43.0


From ca1f8a9461fe0bca54c6f82f08e7feb2075a04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 08/57] fix: rethrow the caught exception and not a sliced copy

---
 src/Geometry/LongRange.h | 2 +-
 src/Io/IoNgSerializer.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 9593054..dcc99f1 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -144,7 +144,7 @@ public:
 				std::cerr
 				    << "Please add GeometryMaxConnections=0 or "
 				       "some other number\n";
-				throw e;
+				throw;
 			}
 		}
 	}
diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..7a05a1c 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -46,7 +46,7 @@ public:
 		catch (H5::Exception& e) {
 			delete hdf5file_;
 			hdf5file_ = 0;
-			throw e;
+			throw;
 		}
 
 		if (mode == H5F_ACC_TRUNC) {
@@ -57,7 +57,7 @@ public:
 				filename_ = "";
 				delete hdf5file_;
 				hdf5file_ = 0;
-				throw e;
+				throw;
 			}
 		}
 
@@ -69,7 +69,7 @@ public:
 				filename_ = "";
 				delete hdf5file_;
 				hdf5file_ = 0;
-				throw e;
+				throw;
 			}
 		}
 	}
-- 
2.43.0


From 04865ec60895c3b3a9a3a6ec3d37d71d48f9cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 09/57] fix: throw exceptions that were built and discarded

---
 src/Geometry/LongChain.h | 2 +-
 src/GetBraOrKet.h        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..cfead82 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -119,7 +119,7 @@ public:
 		}
 
 		if (linSize_ <= distance_)
-			RuntimeError("LongChain::ctor()\n");
+			throw RuntimeError("LongChain::ctor()\n");
 	}
 
 	virtual SizeType maxConnections() const
diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..a9a266c 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -122,7 +122,7 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
+			throw RuntimeError("getNumberFrom: no number after character "
 			             "location "
 			             + ttos(start) + " for string " + str + "\n");
 
-- 
2.43.0


From 0260c1493c3ea1926e72db75c4a482544bba2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 10/57] fix: overwriting a vector record in HDF5 replaces the
 record it was written to

---
 src/Io/IoNgSerializer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 7a05a1c..1704482 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -235,7 +235,7 @@ public:
 		const void* ptr = static_cast<const void*>(&what[0]);
 
 		if (Loki::TypeTraits<T>::isFloat)
-			writeComplexOrReal(name2, 'R');
+			writeComplexOrReal(name2, 'R', allowOverwrite);
 		if (allowOverwrite == ALLOW_OVERWRITE)
 			overwrite<T>(name, ptr, dims, 1);
 		else
@@ -255,9 +255,9 @@ public:
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
 
-		writeComplexOrReal(name2, 'C');
+		writeComplexOrReal(name2, 'C', allowOverwrite);
 		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
+			overwrite<T>(name, ptr, dims, 1);
 		else
 			internalWrite<T>(name, ptr, dims, 1);
 	}
@@ -803,10 +803,10 @@ private:
 		return x / 2;
 	}
 
-	void writeComplexOrReal(String name2, char content)
+	void writeComplexOrReal(String name2, char content, WriteMode allowOverwrite)
 	{
 		String nameComplexOrReal = name2 + "ComplexOrReal";
-		write(nameComplexOrReal, content);
+		write(nameComplexOrReal, content, allowOverwrite);
 	}
 
 	ReadEnum getReadEnumOnDisk(String name2)
-- 
2.43.0


From 374fcbe7eb5697821a6f73e7e4850d5afbd24998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 11/57] fix: release the HDF5 data space when a data set cannot
 be created

---
 src/Io/IoNgSerializer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 1704482..9addee0 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -635,6 +635,7 @@ private:
 			std::cerr << e.getDetailMsg() << "\n";
 			std::cerr << "H5 Exception createDataSet ends   "
 			             "<-------------\n";
+			delete dataspace;
 			return false;
 		}
 
-- 
2.43.0


From 42b1a93b41f745cf96d9f6bfcfdf301b9338d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 12/57] fix: reading an empty matrix discards the previous
 elements

---
 src/Matrix.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 3505ce1..933fd45 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -153,8 +153,11 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
-		if (nrow_ == 0 || ncol_ == 0)
+		if (nrow_ == 0 || ncol_ == 0) {
+			data_.clear();
 			return;
+		}
+
 		ioSerializer.read(data_, label + "/data_");
 	}
 
-- 
2.43.0


From bdae073be72dc6c7b11580eebbc4cd0e9b5587ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 13/57] fix: logfermi can be instantiated

---
 src/Fermi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fermi.h b/src/Fermi.h
index 66bda02..2c65e6a 100644
--- a/src/Fermi.h
+++ b/src/Fermi.h
@@ -111,7 +111,7 @@ FieldType logfermi(const FieldType& x)
 		return -x;
 	if (x < -20)
 		return 0;
-	res = -log(1.0 + exp(x));
+	res = -std::log(1.0 + std::exp(x));
 	return res;
 }
 
-- 
2.43.0


From b891f63364adba6d7fa6de9b61429f800244172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 14/57] fix: Minimizer frees its vectors when the iteration
 fails

---
 src/Minimizer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Minimizer.h b/src/Minimizer.h
index 72bf48e..8c352ec 100644
--- a/src/Minimizer.h
+++ b/src/Minimizer.h
@@ -105,6 +105,8 @@ public:
 				String msg(
 				    "Minimizer::simplex(...): GSL Error: ");
 				msg += gslError + "\n";
+				gsl_vector_free(x);
+				gsl_vector_free(xs);
 				throw RuntimeError(msg);
 			}
 
@@ -162,6 +164,7 @@ public:
 				           "GSL Error: ");
 				if (verbose_)
 					std::cerr << msg << gslError << "\n";
+				gsl_vector_free(x);
 				return -iter;
 			}
 
-- 
2.43.0


From ac6e300f635649dc448ffb3daa57166d896bafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 15/57] fix: pointByPointGather sends to the root and
 communicator of the caller

---
 src/MpiYes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index ae72953..b408431 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -234,7 +234,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				MPI::send(v[taskNumber], 0, taskNumber);
+				MPI::send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -246,7 +246,7 @@ namespace MPI {
 					if (taskNumber >= v.size())
 						break;
 					NumericType value;
-					MPI::recv(value, r, taskNumber);
+					MPI::recv(value, r, taskNumber, mpiComm);
 					v[taskNumber] = value;
 				}
 			}
@@ -270,7 +270,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				v[taskNumber].send(0, taskNumber, mpiComm);
+				v[taskNumber].send(root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -303,7 +303,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				send(v[taskNumber], 0, taskNumber, mpiComm);
+				send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
-- 
2.43.0


From 3b5782b10480da7bca6b053af2132d8bb9a35b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 16/57] fix: allReduce of a scalar receives into a buffer of
 its own type

---
 src/MpiYes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index b408431..2d9a236 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -467,7 +467,7 @@ namespace MPI {
 	typename EnableIf<Loki::TypeTraits<NumericType>::isArith, void>::Type
 	allReduce(NumericType& v, MPI_Op op = MPI_SUM, CommType mpiComm = COMM_WORLD)
 	{
-		int result = 0;
+		NumericType result = 0;
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
 		int errorCode = MPI_Allreduce(&v, &result, 1, datatype, op, mpiComm);
 		checkError(errorCode, "MPI_Allreduce", mpiComm);
-- 
2.43.0


From 9b0df98de05e1c97cf16bd8bfc3957fc7c571476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 17/57] fix: bcast of a pair examines the outcome

---
 src/MpiYes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 2d9a236..ad8aa59 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -384,10 +384,12 @@ namespace MPI {
 		T1 t1 = p.first;
 		MPI_Datatype datatype = MpiData<T1>::Type;
 		int errorCode = MPI_Bcast(&t1, 1, datatype, root, mpiComm);
+		checkError(errorCode, "MPI_Bcast", mpiComm);
 
 		T2 t2 = p.second;
 		MPI_Datatype datatype2 = MpiData<T2>::Type;
 		errorCode = MPI_Bcast(&t2, 1, datatype2, root, mpiComm);
+		checkError(errorCode, "MPI_Bcast", mpiComm);
 
 		p = std::pair<T1, T2>(t1, t2);
 	}
-- 
2.43.0


From 1f4c8b606f9af22f92d2e3b6e158507fb5a834ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 18/57] fix: bcast of a complex vector agrees on the size first

---
 src/MpiYes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index ad8aa59..e7ad837 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -371,6 +371,10 @@ namespace MPI {
 	    void>::Type
 	bcast(SomeVectorType& v, int root = 0, CommType mpiComm = COMM_WORLD)
 	{
+		SizeType total = v.size();
+		bcast(total, root, mpiComm);
+		if (total != v.size())
+			v.resize(total, 0);
 		MPI_Datatype datatype = MpiData<typename SomeVectorType::value_type::value_type>::Type;
 		int errorCode = MPI_Bcast(&(v[0]), 2 * v.size(), datatype, root, mpiComm);
 		checkError(errorCode, "MPI_Bcast", mpiComm);
-- 
2.43.0


From be935aebf043512fe4a18cfea8e4a9788b5c9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 19/57] fix: send announces the vector size in the type recv
 expects

---
 src/MpiYes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index e7ad837..93f4a42 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -194,7 +194,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
@@ -209,7 +209,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<typename NumericType::value_type>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), 2 * v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
-- 
2.43.0


From 3e60101e1c1d985b11be611a782f41270742c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 20/57] fix: Parallelizer2 creates its load balancer from the
 weights

---
 src/Parallelizer2Pthread.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index f178de4..6b04d55 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -110,8 +110,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), nthreads_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, nthreads_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From e74661c9ac926f012f142541fb36d016442e9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 21/57] fix: InterNode creates its load balancer from the
 weights

---
 src/InterNodeMpi.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InterNodeMpi.h b/src/InterNodeMpi.h
index f05e23c..2e17328 100644
--- a/src/InterNodeMpi.h
+++ b/src/InterNodeMpi.h
@@ -44,8 +44,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), mpiSize_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, mpiSize_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From d2c02866563304f3a958e5180766f368cc432d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 22/57] fix: OpenMP Parallelizer2 reports the threads it uses
 outside a parallel region

---
 src/Parallelizer2OpenMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parallelizer2OpenMP.h b/src/Parallelizer2OpenMP.h
index 08d0505..514c1f1 100644
--- a/src/Parallelizer2OpenMP.h
+++ b/src/Parallelizer2OpenMP.h
@@ -25,7 +25,7 @@ public:
 			lambda(i, omp_get_thread_num());
 	}
 
-	SizeType numberOfThreads() const { return omp_get_num_threads(); }
+	SizeType numberOfThreads() const { return threads_; }
 
 	String name() const { return "openmp"; }
 
-- 
2.43.0


From 10c57dc25e8ff3db416a6f29870426e46e5c2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 23/57] fix: RedirectOutput can be included from several
 translation units

---
 src/RedirectOutput.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/RedirectOutput.hh b/src/RedirectOutput.hh
index ec7620d..24673f6 100644
--- a/src/RedirectOutput.hh
+++ b/src/RedirectOutput.hh
@@ -70,10 +70,10 @@ private:
 	static bool redirected_;
 };
 
-std::string RedirectOutput::app_name_;
-std::string RedirectOutput::app_name2_;
-std::streambuf* RedirectOutput::cout_buffer_ = nullptr;
-std::ofstream RedirectOutput::cout_stream_;
-bool RedirectOutput::redirected_ = false;
+inline std::string RedirectOutput::app_name_;
+inline std::string RedirectOutput::app_name2_;
+inline std::streambuf* RedirectOutput::cout_buffer_ = nullptr;
+inline std::ofstream RedirectOutput::cout_stream_;
+inline bool RedirectOutput::redirected_ = false;
 }
 #endif // REDIRECTOUTPUT_HH
-- 
2.43.0


From f357bad905f5e9ea5a1c761936a05cfcc851d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 24/57] fix: expression nodes IfGtZero and Int override code()

---
 src/AST/Node.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AST/Node.h b/src/AST/Node.h
index 883b6c7..530ec5f 100644
--- a/src/AST/Node.h
+++ b/src/AST/Node.h
@@ -161,7 +161,7 @@ public:
 
 	IfGtZero* clone() const { return new IfGtZero(*this); }
 
-	virtual char code() const { return 'g'; }
+	virtual String code() const { return "g"; }
 
 	virtual SizeType arity() const { return 1; }
 
@@ -183,7 +183,7 @@ public:
 
 	Int* clone() const { return new Int(*this); }
 
-	virtual char code() const { return 'i'; }
+	virtual String code() const { return "i"; }
 
 	virtual SizeType arity() const { return 1; }
 
-- 
2.43.0


From 567fc9453727f3930a2a4c263fb3e82046967fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 25/57] fix: Geometry::print can be instantiated

---
 src/Geometry/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..3c7a0c1 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -300,7 +300,7 @@ public:
 	void print(std::ostream& os) const
 	{
 		for (SizeType i = 0; i < terms_.size(); i++)
-			terms_[i]->print(os, linSize_);
+			terms_[i]->print(os);
 	}
 
 	SizeType handle(SizeType t, SizeType ind, SizeType jnd) const
-- 
2.43.0


From b3d3699560801bcc264b5d82a177f36e48e99107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 26/57] fix: Davidson orthogonalises against the search vectors
 in its first pass

---
 src/DavidsonSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DavidsonSolver.h b/src/DavidsonSolver.h
index 7c5b39a..05f33cf 100644
--- a/src/DavidsonSolver.h
+++ b/src/DavidsonSolver.h
@@ -146,7 +146,7 @@ private:
 		RealType tauin = PsimagLite::real(t * t);
 		for (SizeType i = 0; i < m; i++) {
 			ComplexOrRealType tmp = scalarProduct(v[i], t);
-			t = t - tmp * t;
+			t = t - tmp * v[i];
 		}
 		if (PsimagLite::real(t * t) / tauin > k)
 			return;
-- 
2.43.0


From 64b31ec13865c472d357bac3e927dd7d950d1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 27/57] fix: matrix exponentials of complex Hermitian matrices
 are not transposed

---
 src/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 933fd45..0410eda 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1029,7 +1029,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * PsimagLite::conj(m(j, k)) * tmp;
 			}
 			expm(i, j) = sum;
 		}
@@ -1097,7 +1097,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From 4008d504c43e987440e32b9d28c0e2408b86c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 28/57] fix: reading a sparse matrix checks the columns it has
 read

---
 src/CrsMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index a45360e..2dd59dd 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -722,10 +722,10 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		    "is>>CrsMatrix(...): Rows must be positive\n");
 
 	int ncol = 0;
+	is >> ncol;
 	if (ncol < 0)
 		throw RuntimeError(
 		    "is>>CrsMatrix(...): Cols must be positive\n");
-	is >> ncol;
 
 	if (n == 0 || ncol == 0)
 		return is;
-- 
2.43.0


From ca6c4f7b163b94cd51f614710b39a37b4a7e7352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 29/57] fix: reading an empty sparse matrix discards the
 previous entries

---
 src/CrsMatrix.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 2dd59dd..84908ee 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -619,8 +619,13 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
-		if (nrow_ == 0 || ncol_ == 0)
+		colind_.clear();
+		values_.clear();
+		if (nrow_ == 0 || ncol_ == 0) {
+			rowptr_.clear();
 			return;
+		}
+
 		ioSerializer.read(rowptr_, label + "/rowptr_");
 		assert(rowptr_.size() == nrow_ + 1);
 		if (rowptr_[nrow_] == 0)
-- 
2.43.0


From 3ac02eeafc6faddbd1a5ecf792c7815cfdf96e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 30/57] fix: SparseVector comparison compares sizes and can be
 instantiated

---
 src/SparseVector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..4c250b5 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -239,11 +239,13 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
+		if (size_ != v.size_ || indices_.size() != v.indices_.size())
+			return false;
 		for (SizeType i = 0; i < v.values_.size(); i++) {
 			if (indices_[i] != v.indices_[i])
 				return false;
 			FieldType val = values_[i] - v.values_[i];
-			if (!isAlmostZero(val, 1e-8))
+			if (std::abs(val) >= 1e-8)
 				return false;
 		}
 		return true;
@@ -278,7 +280,7 @@ public:
 	{
 		SizeType x = 0;
 		for (SizeType i = 0; i < indices_.size(); i++) {
-			if (isAlmostZero(values_[i], 1e-4))
+			if (std::abs(values_[i]) < 1e-4)
 				continue;
 			x++;
 			if (x > 1)
-- 
2.43.0


From 7aafc99ade12ad1608c0da05c21af879c7d4744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 31/57] fix: product of nested vectors and a vector ends and
 stays inside its operands

---
 src/Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..bbe3c9e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -97,10 +97,10 @@ template <typename T1, typename T2, typename A, typename AA>
 vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
                         const vector<T2, A>& v2)
 {
-	vector<T2, A> v3(v2.size());
+	vector<T2, A> v3(v1.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From 37729186cfe16be0aa30fb210adaf730dac4abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 32/57] fix: norm of a complex SparseVector can be instantiated

---
 src/SparseVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 4c250b5..35f3c64 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -392,7 +392,7 @@ inline FieldType norm(const SparseVector<std::complex<FieldType>>& v)
 	std::complex<FieldType> sum = 0;
 	for (SizeType i = 0; i < v.indices(); i++)
 		sum += PsimagLite::conj(v.value(i)) * v.value(i);
-	return real(sqrt(sum));
+	return PsimagLite::real(sqrt(sum));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 393c39014d3cb7bf6757dfc8c68e376ac962d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:01 +0000
Subject: [PATCH 33/57] fix: SumDecomposition's operator<< is inline, so the
 header can be included in several translation units

---
 src/SumDecomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SumDecomposition.h b/src/SumDecomposition.h
index cbf19a1..cb3b63f 100644
--- a/src/SumDecomposition.h
+++ b/src/SumDecomposition.h
@@ -70,7 +70,7 @@ private:
 	Vector<VectorSizeType>::Type data_;
 };
 
-std::ostream& operator<<(std::ostream& os, const SumDecomposition& sd)
+inline std::ostream& operator<<(std::ostream& os, const SumDecomposition& sd)
 {
 	os << sd.storedSize() << "\n";
 	for (SizeType i = 0; i < sd.storedSize(); ++i)
-- 
2.43.0


From 8d3592f0e867dcff31dad2d21369f2dde0746ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 34/57] fix: MemResolv compares instead of assigning inside an
 assertion

---
 src/MemResolv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MemResolv.h b/src/MemResolv.h
index aa077f7..9871490 100644
--- a/src/MemResolv.h
+++ b/src/MemResolv.h
@@ -322,7 +322,7 @@ public:
 
 		SizeType tmp = sizeof(SomeVectorType);
 		push(MemResolv::MEMORY_HEAPPTR, tmp, v, msg + "vector<no class> ");
-		assert(tmp = 3 * sizeof(void*)); // begin end reserve
+		assert(tmp == 3 * sizeof(void*)); // begin end reserve
 		checkForVectorReserve(v);
 
 		SizeType total = tmp;
-- 
2.43.0


From 3912fc17312d452c7f09cd065655bd5ef3bf80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:28 +0000
Subject: [PATCH 35/57] fix: vector * matrix is the row-vector product, not
 matrix * vector

---
 src/Matrix.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 0410eda..b2fb265 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -921,6 +921,15 @@ operator*(const T1& a, const T2& b)
 	                                                                     b);
 }
 
+// without this one vector * matrix would pick std::operator*(vector, scalar),
+// which commutes its arguments, and would then be computed as matrix * vector
+template <typename T, typename A>
+std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>
+operator*(const std::vector<T, A>& a, const Matrix<T>& b)
+{
+	return std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>(a, b);
+}
+
 template <typename T>
 std::ClosureOperator<Matrix<T>, Matrix<T>, std::ClosureOperations::OP_PLUS>
 operator+(const Matrix<T>& a, const Matrix<T>& b)
-- 
2.43.0


From 77a9ac674325cb6e9b0311821b609d1f3f0e041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 36/57] fix: LanczosCore does not write beta_1 for a one-step
 decomposition

---
 src/LanczosCore.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..ddf671d 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (1 < max_nstep)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
-- 
2.43.0


From 033b21156e580f391a053c9a3d477631914ecb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:10 +0000
Subject: [PATCH 37/57] fix: LanczosCore does not save a vector past the last
 step

---
 src/LanczosCore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index ddf671d..cdb9ca8 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -240,7 +240,7 @@ public:
 			if (exitFlag && j >= params_.minSteps)
 				break;
 
-			if (lanczosVectors_.lotaMemory())
+			if (lanczosVectors_.lotaMemory() && j + 1 < max_nstep)
 				lanczosVectors_.saveVector(V2, j + 1);
 
 			for (SizeType i = 0; i < matsize; ++i) {
-- 
2.43.0


From fbacd96de1ba027f57f47c1409ae0e05fac3b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 38/57] fix: InputNg readFile does not append the last
 character twice

---
 src/InputNg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..64e2566 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
-- 
2.43.0


From 64a4f0148b16802eecca55e56c00f722f879db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 39/57] fix: InputNg a comment does not lose the value or
 vector that precedes it

---
 src/InputNg.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 64e2566..768193d 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -366,6 +366,7 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			SizeType stateBeforeComment = state_;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
 				if (state_ == IN_COMMENT && type != ENDOFLINE)
@@ -374,7 +375,7 @@ public:
 				case ENDOFLINE:
 					line_++;
 					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
+						state_ = stateBeforeComment;
 						break;
 					}
 					if (buffer == "")
@@ -402,6 +403,10 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
+					if (buffer != "")
+						saveBuffer(buffer, ENDOFLINE);
+					buffer = "";
+					stateBeforeComment = state_;
 					state_ = IN_COMMENT;
 					break;
 				default:
-- 
2.43.0


From 9e03d2b2c95f5cb3d7d11f4c1fe517cb5aa5ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:02 +0000
Subject: [PATCH 40/57] fix: InputNg reads long and SizeType values with atol,
 atoi cannot hold them

---
 src/InputNg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 768193d..925596c 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -723,7 +723,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = atol(it->second.c_str());
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -747,7 +747,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = atol(it->second.c_str());
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -787,7 +787,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			val = atol(it->second.c_str());
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
-- 
2.43.0


From 367a3f8a07a89b0bc7991bfbf8b921cfc16485d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:49 +0000
Subject: [PATCH 41/57] fix: LongChain gives the wrap-around bonds handles of
 their own

---
 src/Geometry/LongChain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index cfead82..f5e69af 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// the bond that wraps around starts at its larger site
+		return (isPeriodic_ && imax - imin != distance_) ? imax : imin;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From 0646586c15a339a8249b225393187182032bdda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:54 +0000
Subject: [PATCH 42/57] fix: classes that release a member in their destructor
 cannot be copied member by member

---
 src/AST/ExpressionForAST.h        | 4 ++++
 src/AST/PlusMinusMultiplyDivide.h | 4 ++++
 src/Geometry/LadderBath.h         | 4 ++++
 src/Integrator.h                  | 4 ++++
 src/Io/IoSimple.h                 | 4 ++++
 src/Limit.h                       | 4 ++++
 src/MemResolv.h                   | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..f0cb382 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -87,6 +87,10 @@ public:
 
 private:
 
+	ExpressionForAST(const ExpressionForAST&) = delete;
+
+	ExpressionForAST& operator=(const ExpressionForAST&) = delete;
+
 	VectorTreeType vecTree_;
 }; // class ExpressionForAST
 
diff --git a/src/AST/PlusMinusMultiplyDivide.h b/src/AST/PlusMinusMultiplyDivide.h
index adc9505..0a6f6f4 100644
--- a/src/AST/PlusMinusMultiplyDivide.h
+++ b/src/AST/PlusMinusMultiplyDivide.h
@@ -110,6 +110,10 @@ public:
 
 private:
 
+	PlusMinusMultiplyDivide(const PlusMinusMultiplyDivide&) = delete;
+
+	PlusMinusMultiplyDivide& operator=(const PlusMinusMultiplyDivide&) = delete;
+
 	static void setInputRealOrComplex(NodeType* input, const String& code, const std::complex<double>& dummy)
 	{
 		std::complex<double> val = stringToComplex(code);
diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..3fea713 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -227,6 +227,10 @@ public:
 
 private:
 
+	LadderBath(const LadderBath&) = delete;
+
+	LadderBath& operator=(const LadderBath&) = delete;
+
 	// if i is in the cluster return the pair (-1,-1)
 	// else return the corresponding cluster site c and the number
 	// of this bath site as a pair (c,b)
diff --git a/src/Integrator.h b/src/Integrator.h
index 4f17c09..22d7375 100644
--- a/src/Integrator.h
+++ b/src/Integrator.h
@@ -71,6 +71,10 @@ public:
 
 private:
 
+	Integrator(const Integrator&) = delete;
+
+	Integrator& operator=(const Integrator&) = delete;
+
 	RealType qagp(VectorRealType& pts)
 	{
 		int status = gslWrapper_.gsl_integration_qagp(
diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..4167165 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -243,6 +243,10 @@ public:
 
 	private:
 
+		Out(const Out&) = delete;
+
+		Out& operator=(const Out&) = delete;
+
 		int rank_;
 		String filename_;
 		std::ofstream* fout_;
diff --git a/src/Limit.h b/src/Limit.h
index 2689dcd..1bb65b5 100644
--- a/src/Limit.h
+++ b/src/Limit.h
@@ -43,6 +43,10 @@ public:
 
 private:
 
+	Limit(const Limit&) = delete;
+
+	Limit& operator=(const Limit&) = delete;
+
 	void checkRet(int x, PsimagLite::String msg) const
 	{
 		if (x == 0)
diff --git a/src/MemResolv.h b/src/MemResolv.h
index 9871490..c1096a5 100644
--- a/src/MemResolv.h
+++ b/src/MemResolv.h
@@ -407,6 +407,10 @@ public:
 
 private:
 
+	MemResolv(const MemResolv&) = delete;
+
+	MemResolv& operator=(const MemResolv&) = delete;
+
 	template <typename SomeVectorType>
 	void checkForVectorReserve(const SomeVectorType* vPtr) const
 	{
-- 
2.43.0


From 3d197bce39a236c730a8c23247d92e27778ebff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 43/57] fix: an Input node of the expression tree starts with a
 value

---
 src/AST/Node.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AST/Node.h b/src/AST/Node.h
index 530ec5f..9810737 100644
--- a/src/AST/Node.h
+++ b/src/AST/Node.h
@@ -207,6 +207,7 @@ public:
 	Input(SizeType i)
 	    : char_(i + 48)
 	    , strOneChar_(" ")
+	    , input_()
 	{
 		strOneChar_[0] = char_;
 	}
-- 
2.43.0


From b2edd836996e6d1cace043150944fc2f9498bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 44/57] fix: Ladder gives isPeriodicY_ a value when the input
 does not

---
 src/Geometry/Ladder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..2cb89fe 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,6 +96,7 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
-- 
2.43.0


From 19ab3a111f42131b0aa0bc3d057ea03c957cad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:36 +0000
Subject: [PATCH 45/57] fix: IoSerializerEmpty's write returns the outcome its
 callers examine (USE_IO_SIMPLE)

---
 src/Io/IoSerializerEmpty.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Io/IoSerializerEmpty.h b/src/Io/IoSerializerEmpty.h
index 8e773ec..1937e0d 100644
--- a/src/Io/IoSerializerEmpty.h
+++ b/src/Io/IoSerializerEmpty.h
@@ -42,9 +42,10 @@ public:
 	/* write functions START */
 
 	template <typename T>
-	void write(String, const T&, WriteMode = NO_OVERWRITE)
+	bool write(String, const T&, WriteMode = NO_OVERWRITE)
 	{
 		errorPrint("write");
+		return false;
 	}
 
 	// Note: THIS WILL EMPTY THE STACK OBJECT!
-- 
2.43.0


From b61d56f21cb434a8439c26ac540a3f46bac2f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:37 +0000
Subject: [PATCH 46/57] fix: MemoryCpu.h can be included from several
 translation units

---
 src/MemoryCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MemoryCpu.h b/src/MemoryCpu.h
index 2047b73..8522975 100644
--- a/src/MemoryCpu.h
+++ b/src/MemoryCpu.h
@@ -60,7 +60,7 @@ public:
 
 }; // class MemoryCpu
 
-MemoryCpu globalMemoryCpu;
+static MemoryCpu globalMemoryCpu;
 } // namespace PsimagLite
 
 /*@}*/
-- 
2.43.0


From ca371818e71cd9c88993ff52aba05d7b4212e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:41 +0000
Subject: [PATCH 47/57] fix: Random48 objects own their state and seed()
 re-seeds

---
 src/Random48.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/Random48.h b/src/Random48.h
index b2a5d1d..c8eecd6 100644
--- a/src/Random48.h
+++ b/src/Random48.h
@@ -33,28 +33,41 @@ public:
 
 	Random48(LongType seed, SizeType rank = 0, SizeType nprocs = 1)
 	{
-		srand48(seed);
+		setState(seed);
 		Vector<LongType>::Type vOfSeeds(nprocs);
 		for (SizeType i = 0; i < vOfSeeds.size(); i++)
-			vOfSeeds[i] = static_cast<LongType>(10000.0 * drand48());
+			vOfSeeds[i] = static_cast<LongType>(10000.0 * erand48(state_));
 		seed_ = vOfSeeds[rank];
-		srand48(seed_);
+		setState(seed_);
 	}
 
 	T random() const // deprecated!!! use operator() instead
 	{
-		return static_cast<T>(drand48());
+		return static_cast<T>(erand48(state_));
 	}
 
-	T operator()() const { return static_cast<T>(drand48()); }
+	T operator()() const { return static_cast<T>(erand48(state_)); }
 
 	LongType seed() const { return seed_; }
 
-	void seed(const LongType& seed) { seed_ = seed; }
+	void seed(const LongType& seed)
+	{
+		seed_ = seed;
+		setState(seed_);
+	}
 
 private:
 
+	// the state that srand48(seed) sets, but owned by this object
+	void setState(LongType seed)
+	{
+		state_[0] = 0x330E;
+		state_[1] = static_cast<unsigned short>(seed & 0xffff);
+		state_[2] = static_cast<unsigned short>((seed >> 16) & 0xffff);
+	}
+
 	LongType seed_;
+	mutable unsigned short state_[3];
 }; // Random48
 } // namespace PsimagLite
 
-- 
2.43.0


From 88c3531e509764273fd9c71f74375aad568d3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 48/57] fix: default-constructed lattices have a value in every
 field (LadderBath released an indeterminate pointer)

---
 src/Geometry/KTwoNiFFour.h | 6 +++++-
 src/Geometry/Ladder.h      | 8 +++++++-
 src/Geometry/LadderBath.h  | 8 +++++++-
 src/Geometry/LadderX.h     | 6 +++++-
 src/Geometry/Star.h        | 5 ++++-
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/KTwoNiFFour.h b/src/Geometry/KTwoNiFFour.h
index c8688a8..98a3cfc 100644
--- a/src/Geometry/KTwoNiFFour.h
+++ b/src/Geometry/KTwoNiFFour.h
@@ -102,7 +102,11 @@ public:
 	typedef std::pair<TypeEnum, SubtypeEnum> PairType;
 	typedef GeometryBase<ComplexOrRealType, InputType> GeometryBaseType;
 
-	KTwoNiFFour() { }
+	KTwoNiFFour()
+	    : linSize_(0)
+	    , signChange_(1)
+	{
+	}
 
 	KTwoNiFFour(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 2cb89fe..15b9f6e 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -91,7 +91,13 @@ public:
 	enum { DIRECTION_X,
 	       DIRECTION_Y };
 
-	Ladder() { }
+	Ladder()
+	    : linSize_(0)
+	    , leg_(0)
+	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
+	{
+	}
 
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index 3fea713..b2a80c5 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -97,7 +97,13 @@ public:
 		DIRECTION_BATH
 	};
 
-	LadderBath() { }
+	LadderBath()
+	    : linSize_(0)
+	    , bathSitesPerSite_(0)
+	    , clusterSize_(0)
+	    , ladder_(0)
+	{
+	}
 
 	LadderBath(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..ad4277f 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -97,7 +97,11 @@ public:
 		DIRECTION_XMY
 	};
 
-	LadderX() { }
+	LadderX()
+	    : linSize_(0)
+	    , leg_(0)
+	{
+	}
 
 	LadderX(SizeType linSize, InputType& io)
 	    : ladder_(linSize, io)
diff --git a/src/Geometry/Star.h b/src/Geometry/Star.h
index 3351df6..e1998fb 100644
--- a/src/Geometry/Star.h
+++ b/src/Geometry/Star.h
@@ -90,7 +90,10 @@ public:
 
 	static const SizeType CENTER = 1;
 
-	Star() { }
+	Star()
+	    : linSize_(0)
+	{
+	}
 
 	Star(SizeType linSize, InputType&)
 	    : linSize_(linSize)
-- 
2.43.0


From 7d956655d3a87bf85e4389cb32150ada537e53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:11 +0000
Subject: [PATCH 49/57] fix: IoSimple reading an empty vector discards the
 previous elements

---
 src/Io/IoSimple.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 4167165..02951d3 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -337,8 +337,6 @@ public:
 			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
 			int xsize;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
-- 
2.43.0


From aa392702832f096d39c281b49a2b81476e220132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:11 +0000
Subject: [PATCH 50/57] fix: IoSimple::In::count throws the message it has
 built

---
 src/Io/IoSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 02951d3..f1c678d 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -427,7 +427,7 @@ public:
 			}
 
 			String ss = "IoSimple::count(...): too many " + s + " in file " + filename_ + "\n";
-			throw RuntimeError(s.c_str());
+			throw RuntimeError(ss.c_str());
 		}
 
 		void rewind()
-- 
2.43.0


From d63d33b1fb7b0457f65b59edd70fa1be06f4b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 51/57] fix: a Geometry, which owns its terms, cannot be copied

---
 src/Geometry/Geometry.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 3c7a0c1..9695e44 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -335,6 +335,10 @@ public:
 
 private:
 
+	Geometry(const Geometry&);
+
+	Geometry& operator=(const Geometry&);
+
 	SizeType linSize_;
 	typename Vector<GeometryTermType*>::Type terms_;
 }; // class Geometry
-- 
2.43.0


From a110b4cd3f7c93a02016157ab658cdee36fa088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:45 +0000
Subject: [PATCH 52/57] fix: InputNg does not erase the end iterator of the
 labels for removal

---
 src/InputNg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 925596c..7f8c950 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -955,7 +955,8 @@ public:
 
 			if (it2 != labelsForRemoval_.end() || forceRemoval) {
 				mymap.erase(it);
-				labelsForRemoval_.erase(it2);
+				if (it2 != labelsForRemoval_.end())
+					labelsForRemoval_.erase(it2);
 			}
 		}
 
-- 
2.43.0


From 0d934da2f7835a18e59025d73316d6f0b40dcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:45 +0000
Subject: [PATCH 53/57] fix: reading an empty CrsMatrix clears it, and one
 without columns is read in full

---
 src/CrsMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 84908ee..65d7c3d 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -732,8 +732,10 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		throw RuntimeError(
 		    "is>>CrsMatrix(...): Cols must be positive\n");
 
-	if (n == 0 || ncol == 0)
+	if (n == 0) {
+		m.clear();
 		return is;
+	}
 
 	m.resize(n, ncol);
 	for (SizeType i = 0; i < m.rowptr_.size(); i++)
-- 
2.43.0


From 4081d8821671338d25489cfa8e89281810f71149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:07 +0000
Subject: [PATCH 54/57] fix: Ainur function evaluated at an argument not in its
 file dereferenced end()

---
 src/Ainur/AinurMacros.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..b9dda52 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -66,6 +66,9 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("AinurFunction: no value for argument " + ttos(x) + " in " + filename_ + "\n");
+
 			return it->second;
 		}
 
-- 
2.43.0


From ce5f8b0ada4b98494992d8fc97428093a6cef5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:07 +0000
Subject: [PATCH 55/57] fix: Ainur function files: a line with one column less
 than needed was accepted

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index b9dda52..cbbb757 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -139,7 +139,7 @@ public:
 					continue;
 				std::vector<std::string> tokens;
 				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
 					throw RuntimeError("Line too small: " + std::string(s) + "\n");
 				}
 
-- 
2.43.0


From 018aa732d54a5e049650530bf1d771e495cde509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:07 +0000
Subject: [PATCH 56/57] fix: Ainur function files: blank lines made of spaces
 were not skipped

---
 src/Ainur/AinurMacros.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index cbbb757..9f5722b 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -119,7 +119,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t')
 					return false;
 			}
 
-- 
2.43.0


From 144262f407072f3366ae2ce97b7e20b7e00e83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:55 +0000
Subject: [PATCH 57/57] fix: stringToComplex lost the sign of a negative
 imaginary part

---
 src/Complex.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..002902a 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -119,11 +119,14 @@ inline std::complex<double> stringToComplex(const std::string& str) {
 	std::stringstream ss(str);
 
 	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
+		char sign = 0;
+		ss >> real >> sign >> imag >> dummy;
+		if (sign == 'i') { // imaginary only, like -3i
+			imag = real;
+			real = 0;
+		} else if (str.back() != 'i') {
 			imag = 0;
-		}
-		if (str[str.find('+') + 1] == '-') {
+		} else if (sign == '-') {
 			imag = -imag;
 		}
 	} else if (str.find('i') != std::string::npos) {
-- 
2.43.0

