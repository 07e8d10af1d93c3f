import re
R=[]
def r(f,o,n):
    """whitespace-insensitive: the first match in the file"""
    s=open('/repo/src/'+f).read()
    m=re.search(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s)
    if not m: print('NOT FOUND',f,o[:60]); return
    c=s[m.start():m.end()]
    if any(x==f and y==c for x,y,z in R): print('twice',f,o[:60])
    R.append((f,c,n))
r('GemmR.h','''if (isSmall(m, n)) {
      psimag::BLAS::GEMM(transA, transB, m, n, k, alpha, A, ldA, B, ldB, beta, C, ldC);
      return;
    }
    bigMatrices(transA, transB, m, n, k, alpha, A, ldA, B, ldB, beta, C, ldC);''','''if (!isSmall(m, n))
			bigMatrices(transA, transB, m, n, k, alpha, A, ldA, B, ldB, beta, C, ldC);
		else
			psimag::BLAS::GEMM(transA, transB, m, n, k, alpha, A, ldA, B, ldB, beta, C, ldC);''')
r('GemmR.h','''int const nb_i = ((m % nblocks_i) == 0) ? (m / nblocks_i)
                                            : ((m / nblocks_i) + 1);''','''int const nb_i = m / nblocks_i + ((m % nblocks_i == 0) ? 0 : 1);''')
r('GemmR.h','''int const mm = (ic_end - ic_start + 1);
      int const nn = (jc_end - jc_start + 1);''','''int const nn = 1 + jc_end - jc_start;
			int const mm = 1 + ic_end - ic_start;''')
r('GemmR.h','''T const* const pB = &(B[ib - 1 + (jb - 1) * ldB]);''','''T const* const pB = B + (jb - 1) * ldB + (ib - 1);''')
r('GemmR.h','''if (nb_ == 0)
      return true;
    return ((m <= nb_) && (n <= nb_));''','''const bool disabled = (nb_ == 0);
		return disabled || !(m > nb_ || n > nb_);''')
r('GemmR.h','''const SizeType j_block = (ij_block - i_block) / nblocks_i;''','''const SizeType j_block = ij_block / nblocks_i;''')
r('Geometry/Star.h','''return (i < j) ? j - 1 : i - 1;''','''const SizeType larger = std::max(i, j);
		return larger - 1;''')
r('Geometry/Star.h','''if (i1 == i2)
      return false;
    return (i1 == CENTER || i2 == CENTER);''','''if (i1 != i2 && (i2 == CENTER || i1 == CENTER))
			return true;
		return false;''')
r('Geometry/Star.h','''if (dirId != DIRECTION_S)
      throw RuntimeError("Star must have direction 0\\n");
    return linSize_ - 1;''','''if (dirId == DIRECTION_S)
			return linSize_ - 1;
		throw RuntimeError("Star must have direction 0\\n");''')
r('Geometry/LadderBath.h','''if (ladder_)
      delete ladder_;''','''delete ladder_;''')
r('Geometry/LadderBath.h','''if (dirId == DIRECTION_BATH)
      return bathSitesPerSite_ * clusterSize_;
    return ladder_->getVectorSize(dirId);''','''return (dirId != DIRECTION_BATH) ? ladder_->getVectorSize(dirId) : clusterSize_ * bathSitesPerSite_;''')
r('Geometry/LadderBath.h','''if (c1 < 0 && c2 < 0)
      return connectedInCluster(i1, i2);
    if (c1 >= 0 && c2 >= 0)
      return false;
    if (c1 < 0) {
      return (SizeType(c2) == i1) ? true : false;
    }
    return (SizeType(c1) == i2) ? true : false;''','''const bool firstInCluster = (c1 < 0);
		const bool secondInCluster = (c2 < 0);
		if (firstInCluster && secondInCluster)
			return connectedInCluster(i1, i2);
		if (!firstInCluster && !secondInCluster)
			return false;
		return firstInCluster ? (SizeType(c2) == i1) : (SizeType(c1) == i2);''')
r('Geometry/LadderBath.h','''int c = getClusterSite(i).first;
    if (c >= 0)
      return false; // no bath site is ever fringe
    return fringeInCluster(i, smax, emin);''','''const bool isBath = (getClusterSite(i).first >= 0);
		return !isBath && fringeInCluster(i, smax, emin);''')
r('Geometry/LadderBath.h','''if (c1.first < 0) {
      SizeType firstClusterSite = (clusterSize_ / 2) * bathSitesPerSite_;
      SizeType siteNewCluster = siteNew - firstClusterSite;
      SizeType smaxCluster = smax - firstClusterSite;
      SizeType eminCluster = emin - firstClusterSite;
      SizeType siteSubs = ladder_->getSubstituteSite(
          smaxCluster, eminCluster, siteNewCluster);
      return siteSubs + firstClusterSite;
    }
    String str(__FILE__);
    str += " " + ttos(__LINE__) + "Internal error in getSubstituteSite\\n";
    throw RuntimeError(str);''','''if (c1.first >= 0) {
			String str(__FILE__);
			str += " " + ttos(__LINE__) + "Internal error in getSubstituteSite\\n";
			throw RuntimeError(str);
		}

		const SizeType first = (clusterSize_ / 2) * bathSitesPerSite_;
		return first + ladder_->getSubstituteSite(smax - first, emin - first, siteNew - first);''')
r('Geometry/LadderBath.h','''if (i < middle) { // i is in the system
      return PairType(i % cs + firstClusterSite, i / cs);
    }
    SizeType iprime = i - lastP1ClusterSite;
    SizeType offset = lastP1ClusterSite - cs;
    return PairType(iprime % cs + offset, iprime / cs);''','''const bool inSystem = (i < middle);
		const SizeType iprime = inSystem ? i : i - lastP1ClusterSite;
		const SizeType offset = inSystem ? firstClusterSite : lastP1ClusterSite - cs;
		return PairType(offset + iprime % cs, iprime / cs);''')
r('Svd.h','''if (jobz != 'A' && jobz != 'S') {''','''const bool validJob = (jobz == 'A' || jobz == 'S');
		if (!validJob) {''')
r('Svd.h','''int min = (m < n) ? m : n;''','''const int min = std::min(m, n);''')
r('Svd.h','''int lrwork = 2.0 * min * std::max(5 * min + 7, 2 * std::max(m, n) + 2 * min + 1);''','''const int max = std::max(m, n);
		int lrwork = 2.0 * min * std::max(7 + 5 * min, 1 + 2 * min + 2 * max);''')
r('Svd.h','''if (info != 0) {
      if (info < 0)
        throw RuntimeError(String(__FILE__) + ": " + ttos(__LINE__) + " info= " + ttos(info));
      if (info > 0)
        std::cerr''','''if (info < 0)
			throw RuntimeError(String(__FILE__) + ": " + ttos(__LINE__) + " info= " + ttos(info));
		else {
			if (info > 0)
				std::cerr''')
r('Stack.h','''for (int i = tmpVec.size() - 1; i >= 0; i--) {
    x.push(tmpVec[i]);
  }''','''for (SizeType i = tmpVec.size(); i > 0; --i)
		x.push(tmpVec[i - 1]);''')
r('Stack.h','''while (!st2.empty()) {
    typename StackType::value_type x = st2.top();
    os << x << "\\n";
    st2.pop();
  }''','''for (; !st2.empty(); st2.pop())
		os << st2.top() << "\\n";''')
r('SampleCRSMatrix.h','''for (SizeType i = 0; i < y.size(); i++)
      for (SizeType j = rowptr_[i]; j < rowptr_[i + 1]; j++)
        x[i] += values_[j] * y[colind_[j]];''','''const SizeType n = y.size();
		for (SizeType i = 0; i < n; ++i) {
			const SizeType end = rowptr_[i + 1];
			for (SizeType j = rowptr_[i]; j < end; ++j)
				x[i] += y[colind_[j]] * values_[j];
		}''')
r('SampleCRSMatrix.h','''for (SizeType i = 0; i < rows.size(); i++) {
      for (; nextRow <= rows[i]; ++nextRow)
        rowptr_[nextRow] = i;''','''for (SizeType i = 0; i < rows.size(); ++i) {
			while (nextRow <= rows[i])
				rowptr_[nextRow++] = i;''')
r('SampleCRSMatrix.h','''io << v.size() << "\\n";
    for (SizeType i = 0; i < v.size(); i++) {
      io << v[i] << " ";
    }''','''const SizeType n = v.size();
		io << n << "\\n";
		for (SizeType i = 0; i < n; ++i)
			io << v[i] << " ";''')
r('ChebyshevFunction.h','''if (m & 1) {
      int p = (m - 1) / 2;
      return (2 * this->operator()(p, x) * this->operator()(p + 1, x) - x);
    }
    int pp = m / 2;
    RealType tmp = this->operator()(pp, x);
    return (2 * tmp * tmp - 1);''','''const int half = m / 2;
		if (m % 2 == 0) {
			const RealType tmp = this->operator()(half, x);
			return 2 * tmp * tmp - 1;
		}

		return 2 * this->operator()(half, x) * this->operator()(half + 1, x) - x;''')
r('ChebyshevFunction.h','''if (m == 0)
      return 1;
    if (m == 1)
      return x;''','''switch (m) {
		case 0:
			return 1;
		case 1:
			return x;
		}''')
r('MatrixNonOwned.h','''assert(offset_ + i + j * nrow_ < data_->size());
    return (*data_)[offset_ + i + j * nrow_];''','''const SizeType index = offset_ + i + j * nrow_;
		assert(index < data_->size());
		return (*data_)[index];''')
r('Vector.h','''X result = 0;
  for (SizeType i = 0; i < v.size(); i++)
    result += v[i] * PsimagLite::conj(w[i]);
  return result;''','''const SizeType total = v.size();
	X accumulator = 0;
	for (SizeType i = 0; i < total; ++i)
		accumulator += PsimagLite::conj(w[i]) * v[i];
	return accumulator;''')
r('Vector.h','''for (SizeType i = 0; i < v3.size(); i++) {
    v3[i] = 0;
    for (SizeType j = 0; j < v2.size(); j++)
      v3[i] += v1[i][j] * v2[j];
  }''','''for (SizeType i = 0; i < v3.size(); ++i) {
		T2 sum = 0;
		for (SizeType j = 0; j < v2.size(); ++j)
			sum += v1[i][j] * v2[j];
		v3[i] = sum;
	}''')
r('Vector.h','''v = c.r2.r2;
  T2 tmp = c.r1 * c.r2.r1;
  for (SizeType i = 0; i < v.size(); i++)
    v[i] *= tmp;''','''const T2 factor = c.r2.r1 * c.r1;
	v = c.r2.r2;
	for (auto& x : v)
		x *= factor;''')
r('Vector.h','''int xsize = 0;
  is >> xsize;
  if (xsize < 0)
    throw PsimagLite::RuntimeError(">> vector: size is negative\\n");
  v.resize(xsize);
  for (SizeType i = 0; i < SizeType(xsize); i++) {
    is >> v[i];
  }''','''int xsize = 0;
	is >> xsize;
	const bool isNegative = (xsize < 0);
	if (isNegative)
		throw PsimagLite::RuntimeError(">> vector: size is negative\\n");
	v.resize(xsize);
	for (auto it = v.begin(); it != v.end(); ++it)
		is >> *it;''')
r('Vector.h','''typename std::vector<X, A>::const_iterator x = find(natBasis.begin(), natBasis.end(), v);
  if (x == natBasis.end())
    return -1;
  return x - natBasis.begin();''','''const auto it = std::find(natBasis.begin(), natBasis.end(), v);
	return (it == natBasis.end()) ? -1 : static_cast<int>(it - natBasis.begin());''')
r('Vector.h','''typename SomeVectorType::value_type tmp = 0;
  for (size_t i = 0; i < v.size(); i++) {
    tmp += v[i];
  }
  return tmp;''','''typename SomeVectorType::value_type total = 0;
	for (auto& x : v)
		total += x;
	return total;''')
r('Vector.h','''const SizeType n = v1.size();
  if (n != v2.size())
    throw PsimagLite::RuntimeError(
        "scalarProduct of vectors of different size\\n");
  for (SizeType i = 0; i < n; i++)
    result += PsimagLite::conj(v1[i]) * v2[i];
  return result;''','''if (v1.size() != v2.size())
		throw PsimagLite::RuntimeError(
		    "scalarProduct of vectors of different size\\n");
	for (SizeType i = 0; i < v2.size(); ++i)
		result += v2[i] * PsimagLite::conj(v1[i]);
	return result;''')
r('Vector.h','''std::complex<X> x = v * v;
  if (fabs(std::imag(x)) > 1e-5)
    throw RuntimeError("Norm isn't real\\n");
  return sqrt(std::real(x));''','''const std::complex<X> x = v * v;
	if (!(fabs(std::imag(x)) > 1e-5))
		return sqrt(std::real(x));
	throw RuntimeError("Norm isn't real\\n");''')
r('Concurrency.h','''switch (mode) {
    case SERIAL:
      assert(npthreads == 1);
    case PTHREADS:
    case PTHREADS_AND_MPI:
      return npthreads;
    case MPI:
      return 1;
    }
    throw''','''if (mode == SERIAL)
			assert(npthreads == 1);
		if (mode == SERIAL || mode == PTHREADS || mode == PTHREADS_AND_MPI)
			return npthreads;
		if (mode == MPI)
			return 1;
		throw''')
r('Concurrency.h','''if (!hasMpi())
      return;
    if (!mpiDisabled_(label))
      return;
    mpiRank = 0;''','''if (!hasMpi() || !mpiDisabled_(label))
			return;
		mpiRank = 0;''')
r('Concurrency.h','''if (!hasMpi())
      return;
    mpiDisabled_.disable(label);''','''if (hasMpi())
			mpiDisabled_.disable(label);''')
r('Concurrency.h','''if (!hasMpi())
      return false;
    return mpiDisabled_(label);''','''return hasMpi() && mpiDisabled_(label);''')
r('Random48.h','''for (SizeType i = 0; i < vOfSeeds.size(); i++)
      vOfSeeds[i] = static_cast<LongType>(10000.0 * erand48(state_));
    seed_ = vOfSeeds[rank];
    setState(seed_);''','''for (auto& s : vOfSeeds) {
			const double r = erand48(state_);
			s = static_cast<LongType>(r * 10000.0);
		}

		this->seed(vOfSeeds[rank]);''')
r('RungeKutta.h','''VectorType myresult(findSizeOf(yi));
      for (SizeType j = 0; j < myresult.size(); j++)
        myresult[j] = findValueOf(yi, j);
      result.push_back(myresult);
      ti += h_;''','''ti += h_;
			const SizeType n = findSizeOf(yi);
			VectorType myresult(n);
			for (SizeType j = 0; j < n; ++j)
				myresult[j] = findValueOf(yi, j);
			result.push_back(myresult);''')
r('RungeKutta.h','''SizeType N = static_cast<SizeType>(PsimagLite::real((t - t0) / h_));
    solve(result, t0, N, y0);''','''const RealType steps = PsimagLite::real((t - t0) / h_);
		solve(result, t0, static_cast<SizeType>(steps), y0);''')
r('Geometry/LadderX.h','''switch (dirId) {
    case DIRECTION_XPY:
      return linSize_ - leg_;
    case DIRECTION_XMY:
      return linSize_ - leg_;
    }
    return ladder_.getVectorSize(dirId);''','''const bool diagonal = (dirId == DIRECTION_XPY || dirId == DIRECTION_XMY);
		return diagonal ? linSize_ - leg_ : ladder_.getVectorSize(dirId);''')
r('Geometry/LadderX.h','''bool a = (i < emin && i >= smax - 1);
    bool b = (i > smax && i <= emin + 1);
    if (smax & 1)
      return (a || b);
    a = (i < emin && i >= smax - 2);
    b = (i > smax && i <= emin + 2);
    return (a || b);''','''const SizeType delta = (smax & 1) ? 1 : 2;
		const bool a = (i < emin && i >= smax - delta);
		const bool b = (i > smax && i <= emin + delta);
		return (a || b);''')
r('Geometry/LadderX.h','''case DIRECTION_XPY: // only checked for leg_=2
      return (imin - 1) / leg_;
    case DIRECTION_XMY: // only checked for leg_=2
      return imin / leg_;
    }
    throw''','''case DIRECTION_XMY: // only checked for leg_=2
			return imin / leg_;
		case DIRECTION_XPY: // only checked for leg_=2
			return (imin - 1) / leg_;
		default:
			break;
		}

		throw''')
