R=[]
def r(f,o,n): R.append((f,o,n))
# AST
r('AST/AdditionalFunctions.h','''		RealType v0 = PsimagLite::norm(v[0]);
		RealType v1 = PsimagLite::norm(v[1]);

		SizeType x = static_cast<int>(v0);
		SizeType y = static_cast<int>(v1);

		ValueType result = (y == 0) ? x : x % y;
		return result;
''','''		const SizeType x = static_cast<int>(PsimagLite::norm(v[0]));
		const SizeType y = static_cast<int>(PsimagLite::norm(v[1]));

		if (y != 0)
			return x % y;

		return x;
''')
r('AST/AdditionalFunctions.h','''		SizeType b = static_cast<SizeType>(PsimagLite::norm(v[0]));
		return (b) ? v[1] : v[2];
''','''		const SizeType condition = static_cast<SizeType>(PsimagLite::norm(v[0]));
		if (condition == 0)
			return v[2];
		return v[1];
''')
r('AST/PlusMinusMultiplyDivide.h','''		for (SizeType i = 0; i < nodes_.size(); i++)
			delete nodes_[i];

		nodes_.clear();
''','''		for (auto* node : nodes_)
			delete node;

		nodes_.clear();
''')
r('AST/PlusMinusMultiplyDivide.h','''		SizeType n = nodes_.size();
		for (SizeType i = 0; i < n; ++i) {
			if (nodes_[i]->isInput())
				continue;
			if (nodes_[i]->code() == code)
				return *nodes_[i];
		}
''','''		const SizeType total = nodes_.size();
		for (SizeType i = 0; i < total; ++i) {
			const NodeType* node = nodes_[i];
			if (!node->isInput() && node->code() == code)
				return *node;
		}
''')
r('AST/PlusMinusMultiplyDivide.h','''		NodeType* plus = new PlusType();
		nodes_.push_back(plus);

		NodeType* minus = new MinusType();
		nodes_.push_back(minus);
''','''		nodes_.push_back(new PlusType());
		nodes_.push_back(new MinusType());
''')
r('AST/ExpressionForAST.h','''			for (SizeType j = k + 1; j < k + a + 1; j++) {
				if (j >= vecTree_.size())
					continue;
				vecTree_[i]->setDescendants(*vecTree_[j]);
			}
''','''			for (SizeType d = 0; d < a; ++d) {
				const SizeType j = k + 1 + d;
				if (j < vecTree_.size())
					vecTree_[i]->setDescendants(*vecTree_[j]);
			}
''')
# Canonical
r('CanonicalExpression.h','''		return (ItemSpecType::isEmpty(result)) ? false : true;
''','''		return !ItemSpecType::isEmpty(result);
''')
r('CanonicalExpression.h','''		bool retFlag = false;
		while (boolString.first) {
			boolString = replaceOne(boolString.second, label, value);
			retFlag |= boolString.first;
		};

		return std::pair<bool, String>(retFlag, boolString.second);
''','''		bool replacedSome = false;
		do {
			boolString = replaceOne(boolString.second, label, value);
			if (boolString.first)
				replacedSome = true;
		} while (boolString.first);

		return std::pair<bool, String>(replacedSome, boolString.second);
''')
r('CanonicalExpression.h','''		String ret = (x == 0) ? "" : str.substr(0, x);
		ret += ttos(value);

		ret += str.substr(x + label.length(),
		                  str.length() - x - label.length());

		return std::pair<bool, String>(true, ret);
''','''		const size_t after = x + label.length();
		const String ret = str.substr(0, x) + ttos(value) + str.substr(after, str.length() - after);

		return std::pair<bool, String>(true, ret);
''')
r('CanonicalExpression.h','''		bool isCaScalar = QuasiCanonicalType::isRealScalar(termStr);
		if (isCaScalar) {
			const ComplexOrRealType f = PsimagLite::atof(termStr);
			factor *= f;
			return;
		}

		bool isPureCmplx = QuasiCanonicalType::isPureComplex(termStr);
		if (isPureCmplx) {
			const ComplexOrRealType f = QuasiCanonicalType::pureComplex(termStr);
			factor *= f;
			return;
		}
''','''		if (QuasiCanonicalType::isRealScalar(termStr)) {
			factor *= PsimagLite::atof(termStr);
			return;
		}

		if (QuasiCanonicalType::isPureComplex(termStr)) {
			factor *= QuasiCanonicalType::pureComplex(termStr);
			return;
		}
''')
r('QuasiCanonical.h','''			char c = termStr[i];
			bool isDigit = (c >= '0' && c <= '9');
			if (c == '.' || c == '-' || c == '+' || isDigit)
				continue;
			return false;
''','''			const char c = termStr[i];
			const bool isSignOrDot = (c == '.' || c == '-' || c == '+');
			if (!isSignOrDot && (c < '0' || c > '9'))
				return false;
''')
r('QuasiCanonical.h','''			if (status == "closed") {
				mainBuffer_ += str_[i];
			}
			else {
				tempBuffer += str_[i];
			}
''','''			String& destination = (status == "closed") ? mainBuffer_ : tempBuffer;
			destination += str_[i];
''')
r('QuasiCanonical.h','''		const SizeType len = str.length();
		if (len < 3)
			return -1;
		if (str[0] != '@' || str[len - 1] != '@')
			return -1;

		String snumber = str.substr(1, len - 2);
		SizeType number = atoi(snumber);
		if (number >= ats_.size())
			return -1;
		return number;
''','''		const SizeType len = str.length();
		if (len < 3 || str[0] != '@' || str[len - 1] != '@')
			return -1;

		const SizeType number = atoi(str.substr(1, len - 2));
		return (number < ats_.size()) ? static_cast<int>(number) : -1;
''')
r('OneOperatorSpec.h','''		SizeType lastIndex = label.length();
		if (lastIndex > 0)
			lastIndex--;
		if (label[lastIndex] == '\\'') {
''','''		const SizeType lastIndex = (label.length() > 0) ? label.length() - 1 : 0;
		if (label[lastIndex] == '\\'') {
''')
r('OneOperatorSpec.h','''			if (name[i] == cBegin) {
				firstIndex = i;
				continue;
			}

			if (name[i] == cEnd) {
				lastIndex = i;
				continue;
			}
''','''			if (name[i] == cBegin)
				firstIndex = i;
			else if (name[i] == cEnd)
				lastIndex = i;
''')
r('OneOperatorSpec.h','''		bool b1 = (firstIndex < 0 && lastIndex >= 0);
		bool b2 = (firstIndex >= 0 && lastIndex < 0);
		if (b1 || b2)
			err(''','''		if ((firstIndex < 0) != (lastIndex < 0))
			err(''')
r('OneOperatorSpec.h','''		return !s.empty() && std::find_if(s.begin(), s.end(), [](char c) {
			                     return !std::isdigit(c);
		                     })
		    == s.end();
''','''		return !s.empty() && std::all_of(s.begin(), s.end(), [](char c) { return std::isdigit(c) != 0; });
''')
# Svd
r('Svd.h','''		if (jobz != 'A' && jobz != 'S') {
			String msg("svd: jobz must be either A or S");
			String jobzString = " ";
			jobzString[0] = jobz;
			throw RuntimeError(msg + ", not " + jobzString + "\\n");
		}

		int m = a.rows();
		int n = a.cols();
		int lda = m;
		int min = (m < n) ? m : n;
''','''		checkJobz(jobz);

		int m = a.rows();
		int n = a.cols();
		int lda = m;
		int min = std::min(m, n);
''')
r('Svd.h','''	void mycall(char* jobz, int* m, int* n,''','''	static void checkJobz(char jobz)
	{
		if (jobz == 'A' || jobz == 'S')
			return;

		throw RuntimeError(String("svd: jobz must be either A or S") + ", not " + String(1, jobz) + "\\n");
	}

	void mycall(char* jobz, int* m, int* n,''')
r('Svd.h','''		if (info != 0) {
			if (info < 0)
				throw RuntimeError(String(__FILE__) + ": " + ttos(__LINE__) + " info= " + ttos(info));
			if (info > 0)
				std::cerr << "WARNING " << __FILE__ << ": "
				          << __LINE__ << " info= " << info
				          << "\\n";
		}
''','''		if (info < 0)
			throw RuntimeError(String(__FILE__) + ": " + ttos(__LINE__) + " info= " + ttos(info));

		if (info > 0) {
			std::cerr << "WARNING " << __FILE__ << ": "
			          << __LINE__ << " info= " << info
			          << "\\n";
		}
''')
# LinearPrediction
r('LinearPrediction.h','''			FieldType sum = 0;
			for (SizeType j = 0; j < d_.size(); j++) {
				sum += d_[j] * y_[i - j - 1];
			}
			y_.push_back(sum);
''','''			FieldType next = 0;
			SizeType back = i;
			for (const FieldType& coefficient : d_)
				next += coefficient * y_[--back];
			y_.push_back(next);
''')
r('LinearPrediction.h','''				A(l, j) = 0;
				for (SizeType i = n; i < 2 * n; i++)
					A(l, j) += y_[i - l - 1] * y_[i - j - 1];
''','''				FieldType sum = 0;
				for (SizeType i = n; i < n + n; ++i)
					sum += y_[i - j - 1] * y_[i - l - 1];
				A(l, j) = sum;
''')
r('LinearPrediction.h','''			if (abs(roots[j]) > 1.0) {
				roots[j] = 0.0; // roots[j]/abs(roots[j]);
			}
''','''			const bool outsideUnitCircle = (abs(roots[j]) > 1.0);
			if (outsideUnitCircle)
				roots[j] = 0.0; // roots[j]/abs(roots[j]);
''')
r('LinearPrediction.h','''			ab[0] = -roots[j] * ab[0];
''','''			ab[0] *= -roots[j];
''')
# SparseRow
r('SparseRow.h','''			if (cols_[i] == prevCol) {
				value += values_[iperm[i]];
				continue;
			}
			matrix.pushCol(prevCol);
			matrix.pushValue(value);
			counter++;
			value = values_[iperm[i]];
			prevCol = cols_[i];
''','''			const ValueType& thisValue = values_[iperm[i]];
			if (cols_[i] != prevCol) {
				matrix.pushCol(prevCol);
				matrix.pushValue(value);
				++counter;
				value = thisValue;
				prevCol = cols_[i];
			}
			else {
				value += thisValue;
			}
''')
r('SampleCRSMatrix.h','''		for (SizeType i = 0; i < y.size(); i++)
			for (SizeType j = rowptr_[i]; j < rowptr_[i + 1]; j++)
				x[i] += values_[j] * y[colind_[j]];
''','''		const SizeType total = y.size();
		for (SizeType i = 0; i < total; ++i) {
			const SizeType end = rowptr_[i + 1];
			for (SizeType j = rowptr_[i]; j != end; ++j)
				x[i] += y[colind_[j]] * values_[j];
		}
''')
r('LoadBalancerDefault.h','''		if (ntasks < nthreads && ntasks > 0) {
			nthreads = ntasks;
			blockSize_ = 1;
		}

		assert(nthreads > 0);
		if ((ntasks % nthreads) != 0)
			++blockSize_;
''','''		if (ntasks > 0 && ntasks < nthreads) {
			blockSize_ = 1;
			return;
		}

		assert(nthreads > 0);
		blockSize_ += ((ntasks % nthreads) == 0) ? 0 : 1;
''')
r('Integrator.h','''		switch (integ) {
		default:
			return qag(pts, key);
		case INTEG_QAGP:
			return qagp(pts);
		}
''','''		return (integ == INTEG_QAGP) ? qagp(pts) : qag(pts, key);
''')
# MpiYes
r('MpiYes.cpp','''		if (errorCode == MPI_SUCCESS)
			return;

		char errorMessage[MPI_MAX_ERROR_STRING];
		int messageLength = 0;
		MPI_Error_string(errorCode, errorMessage, &messageLength);
		std::cerr << "Error in call to " << caller << " ";
		std::cerr << errorMessage << "\\n";
		MPI_Abort(comm, -1);
''','''		if (errorCode != MPI_SUCCESS) {
			char errorMessage[MPI_MAX_ERROR_STRING];
			int messageLength = 0;
			MPI_Error_string(errorCode, errorMessage, &messageLength);
			std::cerr << "Error in call to " << caller << " " << errorMessage << "\\n";
			MPI_Abort(comm, -1);
		}
''')
r('MpiYes.cpp','''		int tmp = 1;
		if (mpiComm != 0)
			MPI_Comm_size(mpiComm, &tmp);
		return tmp;
''','''		if (mpiComm == 0)
			return 1;

		int size = 1;
		MPI_Comm_size(mpiComm, &size);
		return size;
''')
# Parallelizer2Pthread
r('Parallelizer2Pthread.h','''		LoadBalancerType* loadBalancer = new LoadBalancerType(end - start, nthreads_);
		parallelFor(start, end, lambda, *loadBalancer);
		delete loadBalancer;
		loadBalancer = 0;
''','''		const LoadBalancerType loadBalancer(end - start, nthreads_);
		parallelFor(start, end, lambda, loadBalancer);
''')
r('Parallelizer2Pthread.h','''		SizeType taskNumber = pfs->loadBalancer->taskNumber(pfs->threadNum, p);
		if (taskNumber + pfs->start >= pfs->end)
			break;
		(*pfh)(taskNumber + pfs->start, pfs->threadNum);
''','''		const SizeType index = pfs->start + pfs->loadBalancer->taskNumber(pfs->threadNum, p);
		if (index >= pfs->end)
			break;
		(*pfh)(index, pfs->threadNum);
''')
# LongRange
r('Geometry/LongRange.h','''		return (maxConnections_ == 0) ? linSize_ * linSize_ * 0.25
		                              : maxConnections_;
''','''		if (maxConnections_ > 0)
			return maxConnections_;
		return linSize_ * linSize_ * 0.25;
''')
r('Geometry/LongRange.h','''		return (i < j) ? i : j;
''','''		return std::min(i, j);
''')
r('Geometry/LongRange.h','''		SizeType tmp = siteNew2 - emin + smax + 1;
		assert(tmp < linSize_);
		return tmp;
''','''		const SizeType offset = siteNew2 - emin;
		assert(smax + 1 + offset < linSize_);
		return smax + 1 + offset;
''')
r('Geometry/LongRange.h','''			if (PsimagLite::norm(matrix(i, i)) != 0)
				return true;
		}

		return false;
	}

	static bool hasLower''','''			const bool isZero = (PsimagLite::norm(matrix(i, i)) == 0);
			if (isZero)
				continue;
			return true;
		}

		return false;
	}

	static bool hasLower''')
r('Geometry/LongRange.h','''				SizeType counter = 0;
				SizeType site0 = complexToInteger(values(i, counter++));
				SizeType site1 = complexToInteger(values(i, counter++));
				matrix_(site0, site1) = values(i, counter++);
''','''				const SizeType site0 = complexToInteger(values(i, 0));
				const SizeType site1 = complexToInteger(values(i, 1));
				matrix_(site0, site1) = values(i, 2);
''')
# KTwo
r('Geometry/KTwoNiFFour.h','''		if (newi2 - 1 == newi1 || newi2 - 2 == newi1 || newi2 - 3 == newi1 || newi2 + 1 == newi1)
			return true;
		return false;
''','''		const bool isBelow = (newi2 - 1 == newi1 || newi2 - 2 == newi1 || newi2 - 3 == newi1);
		return isBelow || newi2 + 1 == newi1;
''')
r('Geometry/KTwoNiFFour.h','''		SizeType r = smax % 4;
		switch (r) {
		case 0:
			return subs0(smax, emin, siteNew2);
		case 1:
			return subs1(smax, emin, siteNew2);
		case 2:
			return subs2(smax, emin, siteNew2);
		case 3:
			return subs3(smax, emin, siteNew2);
		}
''','''		const SizeType remainder = smax % 4;
		if (remainder == 0)
			return subs0(smax, emin, siteNew2);
		if (remainder == 1)
			return subs1(smax, emin, siteNew2);
		if (remainder == 2)
			return subs2(smax, emin, siteNew2);
		if (remainder == 3)
			return subs3(smax, emin, siteNew2);
''')
r('Geometry/KTwoNiFFour.h','''			if (type1 == TYPE_C)
				nc++;
			else
				no++;
		}
		return 2 * no + nc;
''','''			(type1 == TYPE_C) ? ++nc : ++no;
		}
		return no + no + nc;
''')
r('Geometry/KTwoNiFFour.h','''		SizeType j = i + 4;
		return ((j % 8) == 0);
''','''		return ((i + 4) % 8 == 0);
''')
r('Geometry/KTwoNiFFour.h','''		bool b1 = (i == smax || i == smax - 1);
		bool b2 = (i == emin || i == emin + 1 || i == emin + 2);
		return (b1 || b2);
''','''		if (i == smax || i == smax - 1)
			return true;
		return (i == emin || i == emin + 1 || i == emin + 2);
''')
r('Geometry/Star.h','''		if (i1 == i2)
			return false;
		return (i1 == CENTER || i2 == CENTER);
''','''		return (i1 != i2) && (i1 == CENTER || i2 == CENTER);
''')
r('Geometry/Star.h','''		return (i < j) ? j - 1 : i - 1;
''','''		const SizeType larger = std::max(i, j);
		return larger - 1;
''')
