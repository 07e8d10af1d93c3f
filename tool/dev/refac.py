R=[]
def r(f,o,n): R.append((f,o,n))
r('Matrix.h','''			for (SizeType j = 0; j < b.cols(); j++) {
				T sum = 0.0;
				for (SizeType k = 0; k < a.cols(); k++) {
					sum += a(i, k) * b(k, j);
				}

				m(i, j) = sum * t1;
			}''','''			SizeType j = 0;
			while (j < b.cols()) {
				T acc = 0.0;
				const SizeType inner = a.cols();
				for (SizeType k = 0; k != inner; ++k)
					acc = acc + a(i, k) * b(k, j);

				m(i, j) = t1 * acc;
				++j;
			}''')
r('Matrix.h','''		SizeType count = 0;
		for (SizeType i = 0; i < n; ++i)
			if (data_[i] != zval)
				++count;

		return count;''','''		SizeType zeros = 0;
		for (SizeType i = 0; i < n; ++i) {
			if (data_[i] == zval) {
				++zeros;
				continue;
			}
		}
		return n - zeros;''')
r('Matrix.h','''bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
{
	SizeType n = A.rows();
	double eps = 1e-6;
	if (n != A.cols())
		throw RuntimeError(
		    "isHermitian called on a non-square matrix.\\n");
	for (SizeType i = 0; i < n; ++i) {
		for (SizeType j = 0; j < n; ++j) {
			if (PsimagLite::norm(A(i, j) + PsimagLite::conj(A(j, i))) > eps) {''','''bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
{
	const double tolerance = 1e-6;
	const SizeType nrows = A.rows();
	const bool isSquare = (A.cols() == nrows);
	if (!isSquare)
		throw RuntimeError(
		    "isHermitian called on a non-square matrix.\\n");
	for (SizeType i = 0; i < nrows; ++i) {
		for (SizeType j = 0; j < nrows; ++j) {
			const auto mirrored = PsimagLite::conj(A(j, i));
			if (PsimagLite::norm(A(i, j) + mirrored) > tolerance) {''')
# helper extraction in inverse (complex version)
r('Matrix.h','''	int lwork = -1;
	typename Vector<T>::Type work(2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	lwork = static_cast<int>(PsimagLite::real(work[0]));
	work.resize(lwork + 2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	String s = "[cz]getri_ failed\\n";
	if (info != 0)
		throw RuntimeError(s.c_str());''','''	int lwork = -1;
	typename Vector<T>::Type work(2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	lwork = static_cast<int>(PsimagLite::real(work[0]));
	work.resize(lwork + 2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	if (info == 0)
		return;
	throw RuntimeError("[cz]getri_ failed\\n");''')
r('CrsMatrix.h','''			setRow(i, counter);

			while (counter < nonZeros && m.getRow(counter) == i) {
				colind_[counter] = m.getColumn(counter);
				values_[counter] = m.getValue(counter);
				counter++;
			}''','''			setRow(i, counter);

			for (; counter < nonZeros; ++counter) {
				if (m.getRow(counter) != i)
					break;
				values_[counter] = m.getValue(counter);
				colind_[counter] = m.getColumn(counter);
			}''')
r('CrsMatrix.h','''		return (nrow_ == op.nrow_ && ncol_ == op.ncol_ && rowptr_ == op.rowptr_ && colind_ == op.colind_ && values_ == op.values_);''','''		if (nrow_ != op.nrow_ || ncol_ != op.ncol_)
			return false;

		if (!(rowptr_ == op.rowptr_))
			return false;

		return (values_ == op.values_ && colind_ == op.colind_);''')
r('CrsMatrix.h','''	SizeType nrow_A = 0;
	SizeType ncol_A = 0;
	SizeType nnz_sum = 0;
	SizeType nnz_max = 0;

	for (SizeType imat = 0; imat < Bmats_size; ++imat) {
		assert(imat < Bmats.size());
		const CrsMatrix<T>& thisMat = *(Bmats[imat]);
		SizeType nrow_B = thisMat.rows();
		SizeType ncol_B = thisMat.cols();
		SizeType nnz_B = thisMat.nonZeros();

		nrow_A = (nrow_B > nrow_A) ? nrow_B : nrow_A;
		ncol_A = (ncol_B > ncol_A) ? ncol_B : ncol_A;
''','''	SizeType nrow_A = 0;
	SizeType ncol_A = 0;
	SizeType nnz_sum = 0;
	SizeType nnz_max = 0;

	for (SizeType imat = 0; imat < Bmats_size; ++imat) {
		const CrsMatrix<T>& thisMat = *(Bmats[imat]);
		const SizeType nnz_B = thisMat.nonZeros();

		nrow_A = std::max(nrow_A, thisMat.rows());
		if (thisMat.cols() > ncol_A)
			ncol_A = thisMat.cols();
''')
r('Vector.h','''	T result = 0.0;
	const SizeType n = v1.size();
	if (n != v2.size())
		throw PsimagLite::RuntimeError(
		    "scalarProduct of vectors of different size\\n");
	for (SizeType i = 0; i < n; i++)
		result += PsimagLite::conj(v1[i]) * v2[i];
	return result;''','''	if (v1.size() != v2.size())
		throw PsimagLite::RuntimeError(
		    "scalarProduct of vectors of different size\\n");
	T result = 0.0;
	auto it2 = v2.begin();
	for (auto it1 = v1.begin(); it1 != v1.end(); ++it1, ++it2)
		result += (*it2) * PsimagLite::conj(*it1);
	return result;''')
r('Vector.h','''	for (SizeType i = 0; i < v.size(); i++)
		v[i] *= t2;
	return v;''','''	for (auto& elem : v)
		elem *= t2;
	return v;''')
r('SparseVector.h','''		dest.resize(total);
		for (SizeType i = 0; i < total; i++)
			dest[i] = 0;
		for (SizeType i = 0; i < indices_.size(); i++)
			dest[indices_[i] - offset] = values_[i];
		return part;''','''		dest.resize(total);
		std::fill(dest.begin(), dest.end(), 0);
		const SizeType n = indices_.size();
		for (SizeType i = 0; i < n; ++i) {
			const SizeType where = indices_[i] - offset;
			dest[where] = values_[i];
		}
		return part;''')
r('PthreadsNg.h','''		LoadBalancerType* loadBalancer = new LoadBalancerType(pfh.tasks(), nthreads_);
		loopCreate(pfh, *loadBalancer);
		delete loadBalancer;
		loadBalancer = 0;''','''		LoadBalancerType loadBalancer(pfh.tasks(), nthreads_);
		loopCreate(pfh, loadBalancer);''')
r('PthreadsNg.h','''			pfs[j].pfh = &pfh;
			pfs[j].loadBalancer = &loadBalancer;
			pfs[j].threadNum = j;
			pfs[j].total = ntasks;
			pfs[j].nthreads = actualThreads;

			attr[j] = new pthread_attr_t;
			int ret''','''			auto& record = pfs[j];
			record.nthreads = actualThreads;
			record.total = ntasks;
			record.threadNum = j;
			record.loadBalancer = &loadBalancer;
			record.pfh = &pfh;

			attr[j] = new pthread_attr_t;
			int ret''')
r('ContinuedFraction.h','''		String f = (freqEnum_ == FREQ_MATSUBARA) ? "Matsubara" : "Real";
		io.write(" ", "#FreqEnum=" + f);
''','''		if (freqEnum_ == FREQ_MATSUBARA)
			io.write(" ", "#FreqEnum=Matsubara");
		else
			io.write(" ", "#FreqEnum=Real");
''')
r('RootFindingBisection.h','''		while (n < maxIter_) {
			RealType c = (a + b) / 2; // new midpoint
			RealType tmp = function_(c);
			if (fabs(tmp) < tolerance_) { // solution found
				return c;
			}
			n++;
			if (sign(tmp) == sign(functionAtA)) {
				a = c;
				functionAtA = tmp;
			}
			else {
				b = c;
			}''','''		for (; n < maxIter_; ++n) {
			const RealType midpoint = 0.5 * (a + b); // new midpoint
			const RealType value = function_(midpoint);
			if (fabs(value) < tolerance_)
				return midpoint;

			if (sign(value) != sign(functionAtA)) {
				b = midpoint;
				continue;
			}
			functionAtA = value;
			a = midpoint;''')
r('Geometry/Honeycomb.h','''		if (x1 != x2)
			return false;
		assert(y1 < y2);
		SizeType d = y2 - y1;
		if ((d == 1) && (y1 & 1))
			return true;

		if (!periodicY_)
			return false;

		// periodic in y direction
		return (d + 1 == ly_);''','''		if (x1 == x2) {
			const SizeType d = y2 - y1;
			const bool bulk = ((y1 & 1) && (d == 1));
			const bool wraps = (periodicY_ && d + 1 == ly_);
			return bulk || wraps;
		}
		return false;''')
r('PredicateSimple.h','''		if (op == "==")
			return (lv == rv);
		if (op == "!=")
			return (lv != rv);
		if (op == "<")
			return (lv < rv);
		if (op == ">")
			return (lv > rv);
		if (op == "<=")
			return (lv <= rv);
		if (op == ">=")
			return (lv >= rv);''','''		if (op == "!=")
			return !(lv == rv);
		if (op == "==")
			return (lv == rv);
		if (op == ">")
			return (rv < lv);
		if (op == "<")
			return (lv < rv);
		else if (op == "<=")
			return !(rv < lv);
		if (op == ">=")
			return !(lv < rv);''')
r('PredicateSimple.h','''		const SizeType n = ops_.size();
		for (SizeType i = 0; i < n; ++i)
			if (op == ops_[i])
				return op.length();

		return 0;''','''		for (const auto& known : ops_) {
			if (known == op)
				return op.size();
		}
		return 0;''')
r('InputNg.h','''			if (c == '\\n')
				return ENDOFLINE;
			if (c == ' ' || c == '\\t')
				return WHITESPACE;
			if (c == '=')
				return EQUALSIGN;
			if (c >= 48 && c <= 58)
				return NUMERIC_CHAR;
			if (c == '.' || c == '+' || c == '-')
				return NUMERIC_CHAR;
			if (c == '(' || c == ')' || c == ',')
				return NUMERIC_CHAR;
			if (c == '#')
				return COMMENT;
			return ALPHA_CHAR;''','''			switch (c) {
			case '\\n':
				return ENDOFLINE;
			case ' ':
			case '\\t':
				return WHITESPACE;
			case '=':
				return EQUALSIGN;
			case '#':
				return COMMENT;
			case '.':
			case '+':
			case '-':
			case '(':
			case ')':
			case ',':
				return NUMERIC_CHAR;
			default:
				break;
			}
			return (c < 48 || c > 58) ? ALPHA_CHAR : NUMERIC_CHAR;''')
r('LanczosSolver.h','''		energy = eigs[excited];
		ls_.excitedVector(z, ritz, excited);

		String str = "LanczosSolver: computeOneState: ";
		if (norm(z) < 1e-6)
			throw RuntimeError(str + " norm is zero\\n");
''','''		ls_.excitedVector(z, ritz, excited);
		energy = eigs[excited];
		checkNormOf(z);
''')
r('LanczosSolver.h','''private:

	LanczosCoreType ls_;''','''private:

	static void checkNormOf(const VectorType& z)
	{
		const bool tooSmall = (norm(z) < 1e-6);
		if (tooSmall)
			throw RuntimeError("LanczosSolver: computeOneState:  norm is zero\\n");
	}

	LanczosCoreType ls_;''')
r('LanczosSolver.h','''		SizeType n = z.size();
		if (n > excited + 1)
			n = excited + 1;
		for''','''		const SizeType n = std::min(z.size(), excited + 1);
		for''')
r('LanczosCore.h','''		RealType atmp = 0;
		for (SizeType i = 0; i < matsize; ++i)
			atmp += PsimagLite::real(V0[i] * PsimagLite::conj(V0[i]));

		atmp = 1.0 / sqrt(atmp);
		for (SizeType i = 0; i < matsize; ++i)
			V0[i] *= atmp;

		if (max_nstep > matsize)
			max_nstep = matsize;''','''		RealType atmp = 0;
		for (const auto& x : V0)
			atmp += PsimagLite::real(PsimagLite::conj(x) * x);

		const RealType factor = 1.0 / sqrt(atmp);
		SizeType i = 0;
		while (i < matsize) {
			V0[i] *= factor;
			i++;
		}

		max_nstep = (max_nstep > matsize) ? matsize : max_nstep;''')
r('Geometry/Ladder.h','''		const SizeType imin = (i1 < i2) ? i1 : i2;
		const SizeType imax = (i1 < i2) ? i2 : i1;
		const SizeType y = imin / leg_;
		switch (dir) {
		case DIRECTION_X:
			if (!isPeriodicX_)
				return imin;
			return (imin < leg_ && imax == imin + linSize_ - leg_)
			    ? imax
			    : imin;
		case DIRECTION_Y:
			if (!isPeriodicY_)
				return imin - y;
			return (imin % leg_ == 0 && imax == imin + leg_ - 1)
			    ? imax
			    : imin;
		}
''','''		const SizeType imin = std::min(i1, i2);
		const SizeType imax = std::max(i1, i2);
		if (dir == DIRECTION_X) {
			const bool wraps = (isPeriodicX_ && imin < leg_ && imax == imin + linSize_ - leg_);
			return wraps ? imax : imin;
		}
		if (dir == DIRECTION_Y) {
			if (isPeriodicY_) {
				if (imin % leg_ == 0 && imax + 1 == imin + leg_)
					return imax;
				return imin;
			}
			return imin - imin / leg_;
		}
''')
r('Geometry/Ladder.h','''		SizeType c1 = i1 % leg_;
		SizeType c2 = i2 % leg_;
		if (c1 == c2)
			return true;
		return false;''','''		return (i2 % leg_ == i1 % leg_);''')
r('LoadBalancerWeights.h','''			taskNumber_[thread].push_back(iperm[ii]);
			// update work loads
			assert(thread < workLoad.size());
			workLoad[thread] += weights[iperm[ii]];''','''			const SizeType task = iperm[ii];
			workLoad[thread] += weights[task];
			taskNumber_[thread].push_back(task);''')
r('LoadBalancerWeights.h','''		for (SizeType iii = 0; iii < ntasks; ++iii) {
			SizeType ii = ntasks - 1 - iii; // because sort is ascending
''','''		for (SizeType left = ntasks; left > 0; --left) {
			const SizeType ii = left - 1; // because sort is ascending
''')
r('RungeKutta.h','''			for (SizeType j = 0; j < myresult.size(); j++)
				myresult[j] = findValueOf(yi, j);
			result.push_back(myresult);
			ti += h_;
			tmp <= (w1 * k1 + w2 * k2 + w3 * k3 + w4 * k4);
''','''			const SizeType total = myresult.size();
			for (SizeType j = 0; j < total; ++j)
				myresult[j] = findValueOf(yi, j);
			tmp <= (w1 * k1 + w2 * k2 + w3 * k3 + w4 * k4);
			ti = ti + h_;
			result.push_back(myresult);
''')
