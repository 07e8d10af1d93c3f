import re
R=[]
def r(f,o,n):
    """whitespace-insensitive: the first match in the file"""
    s=open('/repo/src/'+f).read()
    m=re.search(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s)
    if not m: print('NOT FOUND',f,o[:60]); return
    c=s[m.start():m.end()]
    if any(x==f and y==c for x,y,z in R): print('twice',f,o[:60])
    R.append((f,c,n))
r('Random48.h','''for (SizeType i = 0; i < vOfSeeds.size(); i++) vOfSeeds[i] = static_cast<LongType>(10000.0 * erand48(state_));''','''for (auto& s : vOfSeeds) {
			const double x = 10000.0 * erand48(state_);
			s = static_cast<LongType>(x);
		}''')
r('Random48.h','''T operator()() const { return static_cast<T>(erand48(state_)); }''','''T operator()() const
	{
		const double value = erand48(state_);
		return static_cast<T>(value);
	}''')
r('Random48.h','''seed_ = seed; setState(seed_); }''','''setState(seed);
		seed_ = seed;
	}''')
r('PsiBase64.h','''for (i = 0; (i < 4); i++) buffer_ += base64Chars_[charArray4[i]]; i = 0;''','''for (int k = 0; k < 4; ++k)
						buffer_ += base64Chars_[charArray4[k]];
					i = 0;''')
r('PsiBase64.h','''for (j = 0; j < 4; j++) charArray4[j] = base64Chars_.find(charArray4[j]);''','''for (unsigned char& c : charArray4)
					c = base64Chars_.find(c);''')
r('PsiBase64.h','''return (isalnum(c) || (c == '+') || (c == '/'));''','''if (c == '+' || c == '/')
				return true;
			return isalnum(c);''')
r('BitManip.h','''SizeType c = 0; // c accumulates the total bits set in v
    for (; v; c++)
      v &= v - 1; // clear the least significant bit set
    return c;''','''SizeType c = 0;
		while (v != 0) {
			v &= (v - 1);
			++c;
		}
		return c;''')
r('MemoryUsage.h','''time_t s = startTime_.tv_sec - other.startTime_.tv_sec;
      suseconds_t u = startTime_.tv_usec - other.startTime_.tv_usec;
      return TimeHandle(s, u);''','''return TimeHandle(startTime_.tv_sec - other.startTime_.tv_sec,
			                  startTime_.tv_usec - other.startTime_.tv_usec);''')
r('MemoryUsage.h','''SizeType len = y - x;
    if (y == String::npos)
      len = data_.length() - x;
    String s2 = data_.substr(x, len);''','''SizeType len = (y == String::npos) ? data_.length() - x : y - x;
		const String s2 = data_.substr(x, len);''')
r('MemoryUsage.h','''      ++x;
      if (s2.at(i) == ' ' || s2.at(i) == '\\t')
        continue;
      else
        break;''','''			++x;
			const bool isBlank = (s2.at(i) == ' ' || s2.at(i) == '\\t');
			if (!isBlank)
				break;''')
r('MatrixNonOwned.h','''assert(offset_ + i + j * nrow_ < data_->size()); return (*data_)[offset_ + i + j * nrow_]; } T&''','''const SizeType ind = offset_ + i + j * nrow_;
		assert(ind < data_->size());
		return (*data_)[ind];
	}

	T&''')
r('Concurrency.h','''if (!hasMpi()) return false; return mpiDisabled_(label);''','''return hasMpi() ? mpiDisabled_(label) : false;''')
r('Concurrency.h','''if (!hasMpi())
      return;
    mpiDisabled_.disable(label);''','''if (hasMpi())
			mpiDisabled_.disable(label);''')
r('Concurrency.h','''    if (!hasMpi())
      return;
    if (!mpiDisabled_(label))
      return;''','''		if (!isMpiDisabled(label))
			return;''')
r('Concurrency.h','''    case SERIAL:
      assert(threadNum == 0);
    case PTHREADS:
    case PTHREADS_AND_MPI:
      return threadNum;
    case MPI:
      return 0;
    }''','''	case MPI:
			return 0;
		case SERIAL:
			assert(threadNum == 0);
		case PTHREADS:
		case PTHREADS_AND_MPI:
			return threadNum;
		}''')
r('LoadBalancerMpi.h','''    if ((ntasks % nthreads) != 0)
      ++blockSize_;''','''		const SizeType remainder = ntasks % nthreads;
		if (remainder > 0)
			blockSize_++;''')
r('LanczosOrDavidsonBase.h','''    bool canReortho = (params.lotaMemory);
    if (!canReortho) {''','''		if (!params.lotaMemory) {''')
r('DavidsonSolver.h','''    SizeType m = v.size();
    if (m == 0)
      return;
    RealType k = 0.25;''','''		const SizeType m = v.size();
		if (m < 1)
			return;
		const RealType k = 0.25;''')
r('Matrix.cpp','''  if (info == 0)
    return;
  PsimagLite::String str = msg;
  str += " failed with info = " + ttos(info) + "\\n";
  throw RuntimeError(str);''','''	if (info != 0)
		throw RuntimeError(msg + " failed with info = " + ttos(info) + "\\n");''')
r('Matrix.cpp','''  const int NB = 256;
  lwork = std::max(1 + static_cast<int>(work[0]), (NB + 2) * n);
  work.resize(lwork);
  dsyev_''','''	const int NB = 256;
	const int optimal = 1 + static_cast<int>(work[0]);
	const int minimum = (NB + 2) * n;
	lwork = (optimal > minimum) ? optimal : minimum;
	work.resize(lwork);
	dsyev_''')
r('Matrix.cpp','''  int n = m.rows();
  int lda = m.cols();
  Vector<std::complex<float>>::Type work(3);
  Vector<float>::Type rwork(3 * n);
  int info, lwork = -1;
  eigs.resize(n);''','''	int n = m.rows();
	eigs.resize(n);
	int lda = m.cols();
	Vector<float>::Type rwork(3 * n);
	Vector<std::complex<float>>::Type work(3);
	int lwork = -1;
	int info = 0;''')
r('Geometry/GeometryBase.h','''    SizeType imin = (i1 < i2) ? i1 : i2;
    SizeType imax = (i1 > i2) ? i1 : i2;
    bool b = (imax - imin == 1);
    if (!periodic)
      return b;
    bool b2 = (imax - imin == period);
    return (b || b2);''','''		const SizeType distance = (i1 < i2) ? i2 - i1 : i1 - i2;
		if (distance == 1)
			return true;
		return (periodic && distance == period);''')
r('Geometry/GeometryBase.h','''    String str2 = "unimplemented " + str + "\\n";
    throw RuntimeError(str2);''','''		throw RuntimeError("unimplemented " + str + "\\n");''')
r('Geometry/Geometry.h','''  {
    for (SizeType i = 0; i < terms_.size(); i++)
      if (terms_[i])
        delete terms_[i];
  }''','''	{
		for (auto& term : terms_) {
			delete term;
			term = 0;
		}
	}''')
r('Geometry/Geometry.h','''    SizeType middle = smax + 1;
    if (ind < middle && jnd >= middle)
      return ProgramGlobalsType::ConnectionEnum::
          SYSTEM_ENVIRON;
    if (jnd < middle && ind >= middle)
      return ProgramGlobalsType::ConnectionEnum::
          ENVIRON_SYSTEM;
    return (ind < middle)
        ? ProgramGlobalsType::ConnectionEnum::SYSTEM_SYSTEM
        : ProgramGlobalsType::ConnectionEnum::
            ENVIRON_ENVIRON;''','''		const bool iInSystem = (ind <= smax);
		const bool jInSystem = (jnd <= smax);
		if (iInSystem)
			return (jInSystem) ? ProgramGlobalsType::ConnectionEnum::SYSTEM_SYSTEM
			                   : ProgramGlobalsType::ConnectionEnum::SYSTEM_ENVIRON;
		return (jInSystem) ? ProgramGlobalsType::ConnectionEnum::ENVIRON_SYSTEM
		                   : ProgramGlobalsType::ConnectionEnum::ENVIRON_ENVIRON;''')
r('Geometry/Geometry.h','''    bool b = false;
    if (smax + 1 == emin) {
      for (SizeType t = 0; t < terms_.size(); ++t)
        b |= terms_[t]->connected(i1, i2);
      return b;
    }
    for (SizeType t = 0; t < terms_.size(); ++t)
      b |= terms_[t]->connected(smax, emin, i1, i2);
    return b;''','''		const SizeType n = terms_.size();
		const bool adjacent = (smax + 1 == emin);
		bool b = false;
		for (SizeType t = 0; t < n; ++t) {
			if (adjacent)
				b |= terms_[t]->connected(i1, i2);
			else
				b |= terms_[t]->connected(smax, emin, i1, i2);
		}
		return b;''')
r('Geometry/Geometry.h','''    SizeType i = 0;
    while (i < sitesPerBlock) {
      S.push_back(i);
      i++;
    }
    while (i < middle) {
      typename Vector<SizeType>::Type tmpV(sitesPerBlock);
      for (SizeType j = 0; j < sitesPerBlock; j++)
        tmpV[j] = i + j;
      X.push_back(tmpV);
      i += sitesPerBlock;
    }''','''		for (SizeType k = 0; k < sitesPerBlock; ++k)
			S.push_back(k);
		SizeType i = sitesPerBlock;
		for (; i < middle; i += sitesPerBlock) {
			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
			for (SizeType j = 0; j < sitesPerBlock; j++)
				tmpV[j] = i + j;
			X.push_back(tmpV);
		}''')
r('Geometry/Geometry.h','''    SizeType result = 0;
    for (SizeType termId = 0; termId < terms_.size(); ++termId)
      if (terms_[termId]->maxConnections() > result)
        result = terms_[termId]->maxConnections();
    return result;''','''		SizeType result = 0;
		for (SizeType termId = 0; termId < terms_.size(); ++termId) {
			const SizeType tmp = terms_[termId]->maxConnections();
			result = std::max(result, tmp);
		}
		return result;''')
r('Geometry/Geometry.h','''  for (SizeType i = 0; i < g.terms_.size(); i++)
    os << *(g.terms_[i]);
  return os;''','''	for (const auto* term : g.terms_)
		os << *term;
	return os;''')
r('LanczosVectors.h','''    SizeType rows = data_->rows();
    for (SizeType i = 0; i < rows; ++i)
      data_->operator()(i, j) = y[i];''','''		const SizeType rows = data_->rows();
		DenseMatrixType& data = *data_;
		for (SizeType i = 0; i < rows; ++i)
			data(i, j) = y[i];''')
r('LanczosVectors.h','''    for (SizeType j = 0; j < small; j++) {
      ComplexOrRealType ctmp = ritz(j, excited);
      for (SizeType i = 0; i < big; i++)
        z[i] += ctmp * data_->operator()(i, j);
    }''','''		for (SizeType j = 0; j < small; j++) {
			for (SizeType i = 0; i < big; i++)
				z[i] += ritz(j, excited) * data_->operator()(i, j);
		}''')
r('LanczosVectors.h','''    if (btmp > 0) {
      btmp = 1.0 / btmp;
      for (SizeType i = 0; i < nn; i++)
        V2[i] *= btmp; // normalize V2
    }''','''		if (btmp > 0) {
			const RealType factor = 1.0 / btmp;
			for (SizeType i = 0; i < nn; i++)
				V2[i] *= factor; // normalize V2
		}''')
r('LanczosVectors.h','''    if (data_) {
      if (rows != data_->rows() || cols != data_->cols())
        throw RuntimeError("LanczosVectors: data has "
                           "already been set!\\n");
      return;
    }''','''		if (data_) {
			const bool sameShape = (rows == data_->rows() && cols == data_->cols());
			if (sameShape)
				return;
			throw RuntimeError("LanczosVectors: data has "
			                   "already been set!\\n");
		}''')
r('LanczosCore.h','''    RealType atmp = 0;
    for (SizeType i = 0; i < matsize; ++i)
      atmp += PsimagLite::real(V0[i] * PsimagLite::conj(V0[i]));
    atmp = 1.0 / sqrt(atmp);
    for (SizeType i = 0; i < matsize; ++i)
      V0[i] *= atmp;''','''		RealType norm2 = 0;
		for (SizeType i = 0; i < matsize; ++i)
			norm2 += PsimagLite::real(V0[i] * PsimagLite::conj(V0[i]));
		RealType atmp = 1.0 / sqrt(norm2);
		for (auto& v : V0)
			v *= atmp;''')
r('LanczosCore.h','''      if (deltaMax < params_.tolerance)
        exitFlag = true;
      if (j == max_nstep - 1)
        exitFlag = true;''','''			if (deltaMax < params_.tolerance || j + 1 == max_nstep)
				exitFlag = true;''')
r('LanczosCore.h','''      if (exitFlag && mat_.rows() <= 4)
        break;
      if (exitFlag && j >= params_.minSteps)
        break;''','''			if (exitFlag && (mat_.rows() <= 4 || j >= params_.minSteps))
				break;''')
r('LanczosCore.h','''    if (max_nstep > matsize)
      max_nstep = matsize;''','''		max_nstep = std::min(max_nstep, matsize);''')
r('ContinuedFraction.h','''    ComplexType sum = 0;
    for (SizeType l = 0; l < intensity_.size(); l++)
      sum += intensity_[l] / (z - isign * (offset - eigs_[l]));
    return sum * weight_;''','''		const SizeType n = intensity_.size();
		ComplexType sum = 0;
		for (SizeType l = 0; l < n; ++l) {
			const RealType pole = isign * (offset - eigs_[l]);
			sum += intensity_[l] / (z - pole);
		}
		return weight_ * sum;''')
r('ContinuedFraction.h','''    for (SizeType i = 0; i < T.rows(); i++) {
      intensity_[i] = T(0, i) * T(0, i);
    }''','''		const SizeType n = T.rows();
		for (SizeType i = 0; i < n; ++i) {
			const auto& value = T(0, i);
			intensity_[i] = value * value;
		}''')
r('ContinuedFraction.h','''    if (freqEnum_ == FREQ_MATSUBARA || params.numberOfMatsubaras > 0) {
      plotMatsubara(result, params);
      return;
    }
    if (freqEnum_ == FREQ_REAL || params.numberOfMatsubaras == 0) {
      plotReal(result, params);
    }''','''		const bool isMatsubara = (freqEnum_ == FREQ_MATSUBARA || params.numberOfMatsubaras > 0);
		if (isMatsubara)
			plotMatsubara(result, params);
		else
			plotReal(result, params);''')
r('ContinuedFractionCollection.h','''    bool wasEmpty = false;
    if (v1.size() == 0) {
      wasEmpty = true;
      v1.resize(v2.size());
    }
    else {
      if (v1.size() != v2.size()) {
        String s = "ContinuedFractionCollection::acc...(...)";
        s += " vectors must be of same length\\n";
        throw RuntimeError(s.c_str());
      }
    }''','''		const bool wasEmpty = (v1.size() == 0);
		if (wasEmpty)
			v1.resize(v2.size());

		if (v1.size() != v2.size()) {
			String s = "ContinuedFractionCollection::acc...(...)";
			s += " vectors must be of same length\\n";
			throw RuntimeError(s.c_str());
		}''')
r('ContinuedFractionCollection.h','''        v1[i].first = v2[i].first;
        v1[i].second = v2[i].second;''','''				v1[i] = v2[i];''')
r('ChebyshevFunction.h','''    if (m & 1) {
      int p = (m - 1) / 2;
      return (2 * this->operator()(p, x) * this->operator()(p + 1, x) - x);
    }
    int pp = m / 2;
    RealType tmp = this->operator()(pp, x);
    return (2 * tmp * tmp - 1);''','''		if (m & 1) {
			const int p = (m - 1) / 2;
			const RealType tp = this->operator()(p, x);
			const RealType tp1 = this->operator()(p + 1, x);
			return (2 * tp * tp1 - x);
		}

		const RealType tmp = this->operator()(m / 2, x);
		return (2 * tmp * tmp - 1);''')
r('ChebyshevSerializer.h','''    RealType sum = 0.5 * gnmn[0];
    for (SizeType i = 1; i < gnmn.size(); i++)
      sum += gnmn[i] * chebyshev_(i, x);
    return 2.0 * sum;''','''		const SizeType n = gnmn.size();
		RealType sum = gnmn[0] * 0.5;
		for (SizeType i = 1; i < n; ++i)
			sum += chebyshev_(i, x) * gnmn[i];
		return sum * 2.0;''')
r('ChebyshevSerializer.h','''      const SizeType j = (i & 1) ? (i - 1) / 2 : i / 2;
      const RealType& tmp = (i & 1) ? moments_.b(j) : moments_.a(j);
      gnmn[i] = tmp * gn[i];''','''			const SizeType j = i / 2;
			if (i & 1)
				gnmn[i] = moments_.b(j) * gn[i];
			else
				gnmn[i] = moments_.a(j) * gn[i];''')
r('ChebyshevSerializer.h','''    SizeType nPlus1 = gn.size() + 1;
    RealType cot1 = 1.0 / tan(M_PI / nPlus1);
    for (SizeType i = 0; i < gn.size(); i++) {
      gn[i] = (nPlus1 - i) * cos(M_PI * i / nPlus1) + sin(M_PI * i / nPlus1) * cot1;
      gn[i] /= nPlus1;
    }''','''		const SizeType nPlus1 = gn.size() + 1;
		const RealType cot1 = 1.0 / tan(M_PI / nPlus1);
		for (SizeType i = 0; i < gn.size(); i++) {
			const RealType angle = M_PI * i / nPlus1;
			gn[i] = ((nPlus1 - i) * cos(angle) + sin(angle) * cot1) / nPlus1;
		}''')
r('RungeKutta.h','''      VectorType myresult(findSizeOf(yi));
      for (SizeType j = 0; j < myresult.size(); j++)
        myresult[j] = findValueOf(yi, j);
      result.push_back(myresult);
      ti += h_;''','''			const SizeType sz = findSizeOf(yi);
			VectorType myresult(sz);
			for (SizeType j = 0; j < sz; j++)
				myresult[j] = findValueOf(yi, j);
			ti += h_;
			result.push_back(myresult);''')
r('LinearPrediction.h','''      FieldType sum = 0;
      for (SizeType j = 0; j < d_.size(); j++) {
        sum += d_[j] * y_[i - j - 1];
      }
      y_.push_back(sum);''','''			FieldType sum = 0;
			SizeType j = 0;
			for (const auto& d : d_)
				sum += d * y_[i - ++j];
			y_.push_back(sum);''')
r('LinearPrediction.h','''        A(l, j) = 0;
        for (SizeType i = n; i < 2 * n; i++)
          A(l, j) += y_[i - l - 1] * y_[i - j - 1];''','''				FieldType sum = 0;
				for (SizeType i = n; i < 2 * n; i++)
					sum += y_[i - l - 1] * y_[i - j - 1];
				A(l, j) = sum;''')
r('RootFindingBisection.h','''    while (n < maxIter_) {
      RealType c = (a + b) / 2; // new midpoint''','''		for (; n < maxIter_;) {
			const RealType c = (a + b) / 2; // new midpoint''')
r('RootFindingBisection.h','''return (x >= 0) ? 1 : -1;''','''if (x < 0)
			return -1;
		return 1;''')
r('Profiling.h','''    if (isDead_)
      return;
    OstringStream msg(std::cout.precision());
    msg() << "stopping clock " << message;
    progressIndicator_.printline(msg, os_);
    isDead_ = true;''','''		if (!isDead_) {
			OstringStream msg(std::cout.precision());
			msg() << "stopping clock " << message;
			progressIndicator_.printline(msg, os_);
			isDead_ = true;
		}''')
r('ProgressIndicator.h','''    if (threadId_ != 0)
      return;
    if (rank_ != 0)
      return;
    prefix(os);
    os << something;''','''		if (threadId_ != 0 || rank_ != 0)
			return;
		prefix(os);
		os << something;''')
r('CrsMatrix.h','''    SizeType nrow = this->nrow_;
    this->nrow_ = other.nrow_;
    other.nrow_ = nrow;
    SizeType ncol = this->ncol_;
    this->ncol_ = other.ncol_;
    other.ncol_ = ncol;''','''		std::swap(nrow_, other.nrow_);
		std::swap(ncol_, other.ncol_);''')
r('CrsMatrix.h','''    int counter = 0;
    double eps = 0;
    resize(a.rows(), a.cols());
    for (SizeType i = 0; i < a.rows(); i++) {
      setRow(i, counter);
      for (SizeType j = 0; j < a.cols(); j++) {
        if (PsimagLite::norm(a(i, j)) <= eps)
          continue;
        pushValue(a(i, j));
        pushCol(j);
        ++counter;
      }
    }
    setRow(a.rows(), counter);''','''		const SizeType nr = a.rows();
		const SizeType nc = a.cols();
		resize(nr, nc);
		int counter = 0;
		for (SizeType i = 0; i < nr; ++i) {
			setRow(i, counter);
			for (SizeType j = 0; j < nc; ++j) {
				const T& value = a(i, j);
				const bool isNonZero = (PsimagLite::norm(value) > 0);
				if (isNonZero) {
					pushCol(j);
					pushValue(value);
					++counter;
				}
			}
		}

		setRow(nr, counter);''')
r('CrsMatrix.h','''    if (nrow_ >= 1) {
      assert(rowptr_.size() == 1 + nrow_);
      assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
      assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
      return colind_.size();
    }
    else {
      return 0;
    };''','''		if (nrow_ == 0)
			return 0;
		assert(rowptr_.size() == 1 + nrow_);
		assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
		assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
		return colind_.size();''')
r('CrsMatrix.h','''        assert(SizeType(colind_[j]) < y.size());
        x[i] += values_[j] * y[colind_[j]];''','''				const SizeType col = colind_[j];
				assert(col < y.size());
				x[i] += values_[j] * y[col];''')
r('SparseVector.h','''    dest.resize(total);
    for (SizeType i = 0; i < total; i++)
      dest[i] = 0;''','''		dest.resize(total);
		std::fill(dest.begin(), dest.end(), 0);''')
r('SparseVector.h','''      if (firstLast.first >= parts.partition(i)) {
        ret = i;
      }
      else {
        break;
      }''','''			if (firstLast.first < parts.partition(i))
				break;
			ret = i;''')
r('SparseVector.h','''    for (SizeType i = 0; i < indices_.size(); i++) {
      if (std::abs(values_[i]) < 1e-4)
        continue;
      x++;
      if (x > 1)
        return false;
    }
    return true;''','''		for (SizeType i = 0; i < indices_.size(); i++) {
			if (std::abs(values_[i]) >= 1e-4)
				++x;
			if (x > 1)
				return false;
		}
		return true;''')
r('Vector.h','''  typename std::vector<X, A>::const_iterator x = find(natBasis.begin(), natBasis.end(), v);
  if (x == natBasis.end())
    return -1;
  return x - natBasis.begin();''','''	const auto it = std::find(natBasis.begin(), natBasis.end(), v);
	return (it == natBasis.end()) ? -1 : it - natBasis.begin();''')
r('Vector.h','''    T result = 0.0;
  const SizeType n = v1.size();
  if (n != v2.size())
    throw PsimagLite::RuntimeError(
        "scalarProduct of vectors of different size\\n");''','''	if (v1.size() != v2.size())
		throw PsimagLite::RuntimeError(
		    "scalarProduct of vectors of different size\\n");
	T result = 0.0;
	const SizeType n = v1.size();''')
r('PthreadsNg.h','''  for (SizeType p = 0; p < blockSize; ++p) {
    SizeType taskNumber = pfs->loadBalancer->taskNumber(pfs->threadNum, p);
    if (taskNumber >= pfs->total)
      break;
    pfh->doTask(taskNumber, pfs->threadNum);
  }''','''	bool done = false;
	for (SizeType p = 0; p < blockSize && !done; ++p) {
		const SizeType taskNumber = pfs->loadBalancer->taskNumber(pfs->threadNum, p);
		done = (taskNumber >= pfs->total);
		if (!done)
			pfh->doTask(taskNumber, pfs->threadNum);
	}''')
r('PthreadsNg.h','''    int chosenCpu = -1;
    for (int i = 0; i < MAX_CPUS; ++i) {
      if (CPU_ISSET(i, cpuset) == 0)
        continue;
      chosenCpu = i;
      break;
    }
    return chosenCpu;''','''		for (int i = 0; i < MAX_CPUS; ++i) {
			if (CPU_ISSET(i, cpuset))
				return i;
		}

		return -1;''')
