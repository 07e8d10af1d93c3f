import re
R=[]
def r(f,o,n,k=0):
    """whitespace-insensitive: the k-th match in the file"""
    s=open('/repo/src/'+f).read()
    ms=list(re.finditer(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s))
    if len(ms)<=k: print('NOT FOUND',f,o[:60]); return
    m=ms[k]
    # take in the line before, so that the k-th can be told from the first
    i=m.start()
    c=s[i:m.end()]
    while s.find(c)!=i:
        i=s.rfind('\n',0,i-1); c=s[i:m.end()]
    R.append((f,c,s[i:m.start()]+n))
r('TridiagonalMatrix.h','''resize(n);
    for (SizeType i = 0; i < n; i++)
      a_[i] = b_[i] = value;''','''resize(n);
		std::fill(a_.begin(), a_.end(), value);
		std::fill(b_.begin(), b_.end(), value);''')
r('TridiagonalMatrix.h','''if (n == 0)
      n = a_.size();
    m.resize(n, n, 0);
    for (SizeType i = 0; i < n - 1; ++i) {
      m(i, i) = a_[i];
      m(i, i + 1) = b_[i + 1];
      m(i + 1, i) = PsimagLite::conj(b_[i + 1]);
    }
    m(n - 1, n - 1) = a_[n - 1];''','''const SizeType size = (n == 0) ? a_.size() : n;
		m.resize(size, size, 0);
		for (SizeType i = 0; i < size; ++i)
			m(i, i) = a_[i];
		for (SizeType i = 1; i < size; ++i) {
			m(i - 1, i) = b_[i];
			m(i, i - 1) = PsimagLite::conj(b_[i]);
		}''')
r('TridiagonalMatrix.h','''RealType r = sqrt(g * g + 1.0);
          g = groundD[m] - groundD[l] + groundE_[l] / (g + (g >= 0 ? fabs(r) : -fabs(r)));''','''RealType r = sqrt(g * g + 1.0);
					const RealType signedR = (g < 0) ? -fabs(r) : fabs(r);
					g = groundD[m] - groundD[l] + groundE_[l] / (g + signedR);''')
r('TridiagonalMatrix.h','''groundE_[i + 1] = (r = sqrt(f * f + g * g));''','''r = sqrt(f * f + g * g);
						groundE_[i + 1] = r;''')
r('TridiagonalMatrix.h','''groundD[i + 1] = g + (p = s * r);
            g = c * r - h;''','''p = s * r;
						groundD[i + 1] = g + p;
						g = c * r - h;''')
r('TridiagonalMatrix.h','''if (groundE_.size() != n) {
      groundE_.clear();
      groundE_.resize(n);
    }''','''if (groundE_.size() == n)
			return;
		groundE_.clear();
		groundE_.resize(n);''')
r('ChebyshevSolver.h','''atmp = 0.0;
    for (SizeType i = 0; i < mat_.rows(); i++)
      atmp += PsimagLite::real(y[i] * PsimagLite::conj(y[i]));
    for (SizeType i = 0; i < mat_.rows(); i++) {
      VectorElementType tmp = val * z[i] - x[i];
      x[i] = y[i];
      y[i] = tmp;
    }
    btmp = 0.0;
    for (SizeType i = 0; i < mat_.rows(); i++)
      btmp += PsimagLite::real(y[i] * PsimagLite::conj(x[i]));''','''const SizeType n = mat_.rows();
		atmp = btmp = 0.0;
		for (SizeType i = 0; i < n; i++)
			atmp += PsimagLite::real(y[i] * PsimagLite::conj(y[i]));
		for (SizeType i = 0; i < n; i++) {
			const VectorElementType previous = y[i];
			y[i] = val * z[i] - x[i];
			x[i] = previous;
			btmp += PsimagLite::real(y[i] * PsimagLite::conj(x[i]));
		}''')
r('ChebyshevSolver.h','''ab.a(j) = 2 * atmp - ab.a(0);
      ab.b(j) = 2 * btmp - ab.b(0);''','''const RealType a0 = ab.a(0);
			const RealType b0 = ab.b(0);
			ab.a(j) = 2 * atmp - a0;
			ab.b(j) = 2 * btmp - b0;''')
r('ChebyshevSolver.h','''eMax = -eMax;
    eMax *= 3;
    eMin *= 3;''','''eMax *= -3;
		eMin = 3 * eMin;''')
r('ChebyshevSolver.h','''params_.oneOverA = 2.0 / (eMax - eMin);
    params_.b = (eMax + eMin) / 2;''','''const RealType width = eMax - eMin;
		const RealType sum = eMin + eMax;
		params_.b = sum / 2;
		params_.oneOverA = 2.0 / width;''')
r('ChebyshevSolver.h','''for (SizeType i = 0; i < y_.size(); i++)
        y_[i] = -y[i];''','''SizeType i = y_.size();
			while (i-- > 0)
				y_[i] = -y[i];''')
r('ChebyshevSolver.h','''DenseMatrixType* ptr = lanczosVectors_.data();
    if (!ptr)
      err("LanczosSolver::lanczosVectors() called but no "
          "data stored\\n");
    return ptr->swap(V);''','''DenseMatrixType* const stored = lanczosVectors_.data();
		if (stored == nullptr)
			err("LanczosSolver::lanczosVectors() called but no data stored\\n");
		stored->swap(V);''')
r('Geometry/LongRange.h','''return (i < j) ? i : j;''','''return std::min(i, j);''')
r('Geometry/LongRange.h','''site += amount;
    while (site >= linSize_)
      site -= linSize_;
    return site;''','''return (site + amount) % linSize_;''')
r('Geometry/LongRange.h','''for (SizeType i = 0; i < n; ++i)
      for (SizeType j = i + 1; j < n; ++j)
        matrix_(i, j) = value;''','''for (SizeType j = 1; j < n; ++j)
			for (SizeType i = 0; i < j; ++i)
				matrix_(i, j) = value;''')
r('Geometry/LongRange.h','''for (SizeType i = 0; i < n; ++i) {
      if (PsimagLite::norm(matrix(i, i)) != 0)
        return true;
    }
    return false;''','''bool found = false;
		for (SizeType i = 0; i < n; ++i)
			found = found || (PsimagLite::norm(matrix(i, i)) != 0);
		return found;''')
r('Geometry/LongRange.h','''for (SizeType i = 0; i < matrix.rows(); ++i) {
      for (SizeType j = 0; j < i; ++j) {
        if (PsimagLite::norm(matrix(i, j)) != 0)
          return true;
      }
    }
    return false;''','''SizeType count = 0;
		for (SizeType i = 1; i < matrix.rows(); ++i)
			for (SizeType j = 0; j < i; ++j)
				if (PsimagLite::norm(matrix(i, j)) != 0)
					++count;
		return (count > 0);''')
r('Geometry/LongRange.h','''SizeType counter = 0;
        SizeType site0 = complexToInteger(values(i, counter++));
        SizeType orb0 = complexToInteger(values(i, counter++));
        SizeType site1 = complexToInteger(values(i, counter++));
        SizeType orb1 = complexToInteger(values(i, counter++));
        matrix_(orb0 + site0 * dofs_, orb1 + site1 * dofs_) = values(i, counter++);''','''const SizeType site0 = complexToInteger(values(i, 0));
				const SizeType orb0 = complexToInteger(values(i, 1));
				const SizeType site1 = complexToInteger(values(i, 2));
				const SizeType orb1 = complexToInteger(values(i, 3));
				const SizeType row = orb0 + site0 * dofs_;
				const SizeType col = orb1 + site1 * dofs_;
				matrix_(row, col) = values(i, 4);''')
r('Geometry/LongRange.h','''if (-9223372036854775808.0 <= d && d < 9223372036854775808.0) {
      return d == static_cast<double>(static_cast<int64_t>(d));
    }
    else {
      return false;
    }''','''const bool inRange = (-9223372036854775808.0 <= d && d < 9223372036854775808.0);
		return inRange && (d == static_cast<double>(static_cast<int64_t>(d)));''')
r('Geometry/LongRange.h','''return (maxConnections_ == 0) ? linSize_ * linSize_ * 0.25
                                  : maxConnections_;''','''if (maxConnections_ > 0)
			return maxConnections_;
		return linSize_ * linSize_ * 0.25;''')
r('Geometry/KTwoNiFFour.h','''SizeType newi1 = (type1.second == SUBTYPE_X) ? i1 : i2;
      SizeType newi2 = (type1.second == SUBTYPE_X) ? i2 : i1;
      if (newi1 > newi2) {
        assert(newi1 >= 4);
        if (newi1 - 2 == newi2 || newi1 - 3 == newi2)
          return true;
        return false;
      }
      if (newi2 - 1 == newi1)
        return true;
      if (newi2 >= 2 && newi2 - 2 == newi1)
        return true;
      return false;''','''const bool firstIsX = (type1.second == SUBTYPE_X);
			const SizeType newi1 = firstIsX ? i1 : i2;
			const SizeType newi2 = firstIsX ? i2 : i1;
			if (newi1 > newi2) {
				assert(newi1 >= 4);
				return (newi1 - 2 == newi2 || newi1 - 3 == newi2);
			}
			return (newi2 - 1 == newi1 || (newi2 >= 2 && newi2 - 2 == newi1));''')
r('Geometry/KTwoNiFFour.h','''bool b1 = (i == smax || i == smax - 1);
    bool b2 = (i == emin || i == emin + 1 || i == emin + 2);
    return (b1 || b2);''','''if (i == smax || i + 1 == smax)
			return true;
		return (i >= emin && i <= emin + 2);''')
r('Geometry/KTwoNiFFour.h','''if (i == emin)
      return smax + 3;
    if (i == emin + 1)
      return smax + 2;
    if (i == emin + 2)
      return smax + 4;
    assert(false);
    return 0;''','''assert(i == emin || i == emin + 1 || i == emin + 2);
		if (i == emin + 2)
			return smax + 4;
		if (i == emin + 1)
			return smax + 2;
		return (i == emin) ? smax + 3 : 0;''')
r('Geometry/KTwoNiFFour.h','''SizeType no = 0;
    SizeType nc = 0;
    for (SizeType i = 0; i < sites; i++) {
      SizeType type1 = findTypeOfSite(i).first;
      if (type1 == TYPE_C)
        nc++;
      else
        no++;
    }
    return 2 * no + nc;''','''SizeType rank = 0;
		for (SizeType i = 0; i < sites; i++)
			rank += (findTypeOfSite(i).first == TYPE_C) ? 1 : 2;
		return rank;''')
r('Geometry/KTwoNiFFour.h','''if (type1 == TYPE_C && orb > 0)
      return -1;
    if (type1 == TYPE_C || orb == 0)
      return i;''','''if (orb == 0)
			return i;
		if (type1 == TYPE_C)
			return -1;''')
r('Geometry/KTwoNiFFour.h','''if (isInverted(i1) || isInverted(i2))
      return signChange_ * sign1;
    return sign1;''','''const bool inverted = (isInverted(i1) || isInverted(i2));
		const int factor = (inverted) ? signChange_ : 1;
		return factor * sign1;''')
r('Geometry/KTwoNiFFour.h','''SizeType j = i + 4;
    return ((j % 8) == 0);''','''return (i % 8 == 4);''')
r('Geometry/KTwoNiFFour.h','''SizeType r = sitePlusOne % 4;
    if (r == 0)
      return PairType(TYPE_C, SUBTYPE_X);
    return (r == 1) ? PairType(TYPE_O, SUBTYPE_X)
                    : PairType(TYPE_O, SUBTYPE_Y);''','''switch (sitePlusOne % 4) {
		case 0:
			return PairType(TYPE_C, SUBTYPE_X);
		case 1:
			return PairType(TYPE_O, SUBTYPE_X);
		default:
			return PairType(TYPE_O, SUBTYPE_Y);
		}''')
r('Minimizer.h','''RealType sum = 0;
    for (SizeType i = 0; i < df->size; ++i) {
      RealType tmp = gsl_vector_get(df, i);
      sum += PsimagLite::conj(tmp) * tmp;
    }
    gsl_vector_free(df);
    return sqrt(sum);''','''const SizeType n = df->size;
		RealType sum = 0;
		for (SizeType i = 0; i < n; ++i)
			sum += PsimagLite::conj(gsl_vector_get(df, i)) * gsl_vector_get(df, i);
		const RealType norm = sqrt(sum);
		gsl_vector_free(df);
		return norm;''')
r('Minimizer.h','''switch (status_) {
    case GSL_SUCCESS:
      return "GSL_SUCCESS";
      break;
    case GSL_CONTINUE:
      return "GSL_CONTINUE";
      break;
    default:
      return "UNKNOWN";
      break;
    }''','''if (status_ == GSL_CONTINUE)
			return "GSL_CONTINUE";
		return (status_ == GSL_SUCCESS) ? "GSL_SUCCESS" : "UNKNOWN";''')
r('AST/Node.h','''if (std::norm(v[1]) < 1e-6)
      return v[0];
    return v[0] / v[1];''','''const bool tooSmall = (std::norm(v[1]) < 1e-6);
		const ValueType divisor = (tooSmall) ? ValueType(1) : v[1];
		return v[0] / divisor;''')
r('AST/Node.h','''SizeType x = static_cast<SizeType>(v[0]);
    return x;''','''return static_cast<SizeType>(v[0]);''')
ONCE=1
