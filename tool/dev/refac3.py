R=[]
def r(f,o,n): R.append((f,o,n))
# --- Minimizer: helper for vector building
r('Minimizer.h','''		gsl_vector* x;
		/* Starting point,  */
		x = gsl_vector_alloc(function_.size());
		for (SizeType i = 0; i < minVector.size(); i++)
			gsl_vector_set(x, i, minVector[i]);

		gsl_vector* xs;
''','''		gsl_vector* x = startingPoint(minVector);

		gsl_vector* xs;
''')
r('Minimizer.h','''	void found(VectorType& minVector, gsl_vector* x, SizeType iter)
	{''','''	gsl_vector* startingPoint(const VectorType& v) const
	{
		gsl_vector* x = gsl_vector_alloc(function_.size());
		const SizeType n = v.size();
		for (SizeType i = 0; i < n; ++i)
			gsl_vector_set(x, i, v[i]);
		return x;
	}

	void found(VectorType& minVector, gsl_vector* x, SizeType iter)
	{''')
r('Minimizer.h','''			if (status_) {
				String gslError(gsl_strerror(status_));
				String msg("Minimizer::conjugateGradient(...): "
				           "GSL Error: ");
				if (verbose_)
					std::cerr << msg << gslError << "\\n";
				gsl_vector_free(x);
				return -iter;
			}
''','''			if (status_ != 0) {
				if (verbose_) {
					String gslError(gsl_strerror(status_));
					std::cerr << "Minimizer::conjugateGradient(...): GSL Error: "
					          << gslError << "\\n";
				}
				gsl_vector_free(x);
				return -iter;
			}
''')
# --- Fermi
r('Fermi.h','''	if (x > 50)
		return 0;
	if (x < -50)
		return 1;
	if (x < 0)
		return 1.0 / (1.0 + std::exp(x));
	return std::exp(-x) / (1.0 + std::exp(-x));
''','''	if (x > 50)
		return 0;
	else if (x < -50)
		return 1;
	else if (x < 0)
		return 1.0 / (1.0 + std::exp(x));

	const FieldType e = std::exp(-x);
	return e / (1.0 + e);
''')
r('Fermi.h','''	FieldType res;
	if (x > 20)
		return -x;
	if (x < -20)
		return 0;
	res = -std::log(1.0 + std::exp(x));
	return res;
''','''	if (x < -20)
		return 0;
	if (x > 20)
		return -x;
	return -std::log(1.0 + std::exp(x));
''')
# --- SumDecomposition
r('SumDecomposition.h','''			if (std::accumulate(data.begin(), data.end(), sum) != sum_)
				return;
			bool b1 = (sel_ == SEL_ALL);
			bool b2 = (sel_ == SEL_INDEX && selection_ == size_);
			if (b1 || b2)
				data_.push_back(data);
			size_++;
			return;
''','''			addIfValid(data);
			return;
''')
r('SumDecomposition.h','''	void reentrant1_(VectorSizeType& data, SizeType n, SizeType x)
	{
		SizeType sum = 0;
''','''	void addIfValid(const VectorSizeType& data)
	{
		SizeType sum = 0;
		if (std::accumulate(data.begin(), data.end(), sum) == sum_) {
			if (sel_ == SEL_ALL || (sel_ == SEL_INDEX && selection_ == size_))
				data_.push_back(data);
			++size_;
		}
	}

	void reentrant1_(VectorSizeType& data, SizeType n, SizeType x)
	{
''')
# --- PackIndices
r('PackIndices.h','''		ldiv_t q = std::ldiv(ind, n_);
		y = q.quot;
		x = q.rem;
''','''		const ldiv_t q = std::ldiv(ind, n_);
		x = q.rem;
		y = q.quot;
''')
r('PackIndices.h','''		return permutationInverse[x0 + n_ * x1];
''','''		const SizeType index = x1 * n_ + x0;
		return permutationInverse[index];
''')
# --- Permutations
r('Permutations.h','''		for (SizeType i = k + 1; i < data_.size(); i++)
			data_[c--] = tmp[i];
		return true;
''','''		for (SizeType i = k + 1; i < data_.size(); i++) {
			data_[c] = tmp[i];
			--c;
		}

		return true;
''')
r('Permutations.h','''		for (SizeType i = 0; i < data_.size(); i++)
			data_[i] = orig[i];
		Sort''','''		std::copy(orig.begin(), orig.end(), data_.begin());
		Sort''')
# --- AkimaSpline
r('AkimaSpline.h','''			RealType u = x[i + 1] - x[i];
			RealType ds = (s[i + 1] - s[i]);
			ak.a2 = (3 * ds - (2 * sprime[i] + sprime[i + 1]) * u) / (u * u);
			ak.a3 = ((sprime[i] + sprime[i + 1]) * u - 2 * ds) / (u * u * u);
			akimaStruct_.push_back(ak);
''','''			setCubic(ak, x[i + 1] - x[i], s[i + 1] - s[i], sprime[i], sprime[i + 1]);
			akimaStruct_.push_back(ak);
''')
r('AkimaSpline.h','''	RealType functionFor(const RealType& x, SizeType i) const
	{
		const AkimaStruct& ak = akimaStruct_[i];
''','''	static void setCubic(AkimaStruct& ak, RealType u, RealType ds, RealType p0, RealType p1)
	{
		ak.a3 = ((p0 + p1) * u - 2 * ds) / (u * u * u);
		ak.a2 = (3 * ds - (2 * p0 + p1) * u) / (u * u);
	}

	RealType functionFor(const RealType& x, SizeType i) const
	{
		const AkimaStruct& ak = akimaStruct_[i];
''')
r('AkimaSpline.h','''			if (denom == 0) {
				sprime[i] = (d[i + 1] + d[i + 2]) * 0.5;
				continue;
			}
			sprime[i] = w[i + 2] * d[i + 1] + w[i] * d[i + 2];
			sprime[i] /= denom;
''','''			if (denom != 0) {
				sprime[i] = w[i + 2] * d[i + 1] + w[i] * d[i + 2];
				sprime[i] /= denom;
			} else {
				sprime[i] = (d[i + 1] + d[i + 2]) * 0.5;
			}
''')
r('AkimaSpline.h','''		for (SizeType i = 0; i < akimaStruct_.size(); i++)
			if (x >= akimaStruct_[i].x0 && x <= akimaStruct_[i].x1)
				return i;
''','''		const SizeType n = akimaStruct_.size();
		for (SizeType i = 0; i < n; ++i) {
			const AkimaStruct& ak = akimaStruct_[i];
			if (ak.x0 <= x && x <= ak.x1)
				return i;
		}
''')
# --- RootFindingBisection
r('RootFindingBisection.h','''		while (n < maxIter_) {
			RealType c = (a + b) / 2; // new midpoint
			RealType tmp = function_(c);
			if (fabs(tmp) < tolerance_) { // solution found
				return c;
			}
			n++;
			if (sign(tmp) == sign(functionAtA)) {
				a = c;
				functionAtA = tmp;
			}
			else {
				b = c;
			}
		}
''','''		for (; n < maxIter_; ++n) {
			const RealType c = (a + b) / 2; // new midpoint
			const RealType tmp = function_(c);
			if (fabs(tmp) < tolerance_)
				return c;

			const bool sameSide = (sign(tmp) == sign(functionAtA));
			if (!sameSide) {
				b = c;
				continue;
			}

			a = c;
			functionAtA = tmp;
		}
''')
# --- Ladder
r('Geometry/Ladder.h','''		SizeType c1 = i1 / leg_;
		SizeType c2 = i2 / leg_;
		SizeType r1 = i1 % leg_;
		SizeType r2 = i2 % leg_;
		if (c1 == c2)
			return this->neighbors(r1, r2, isPeriodicY_, leg_ - 1);
		if (r1 == r2)
			return this->neighbors(c1, c2, isPeriodicX_, linSize_ / leg_ - 1);
		return false;
''','''		if (sameColumn(i1, i2))
			return this->neighbors(i1 % leg_, i2 % leg_, isPeriodicY_, leg_ - 1);

		if (!sameRow(i1, i2))
			return false;

		return this->neighbors(i1 / leg_, i2 / leg_, isPeriodicX_, linSize_ / leg_ - 1);
''')
r('Geometry/Ladder.h','''		SizeType c1 = i1 / leg_;
		SizeType c2 = i2 / leg_;
		if (c1 == c2)
			return true;
		return false;
''','''		return (i1 / leg_ == i2 / leg_);
''')
r('Geometry/Ladder.h','''		c += amount;
		while (c >= l)
			c -= l;
		return c;
''','''		SizeType result = c + amount;
		for (; result >= l; result -= l)
			;
		return result;
''')
r('Geometry/Ladder.h','''		bool a = (i < emin && i >= smax - r + 1);
		bool b = (i > smax && i <= emin + r - 1);
		return (a || b);
''','''		if (i < emin && i >= smax - r + 1)
			return true;
		return (i > smax && i <= emin + r - 1);
''')
r('Geometry/Ladder.h','''		case DIRECTION_X:
			if (!isPeriodicX_)
				return imin;
			return (imin < leg_ && imax == imin + linSize_ - leg_)
			    ? imax
			    : imin;
''','''		case DIRECTION_X:
			if (isPeriodicX_ && imin < leg_ && imax == imin + linSize_ - leg_)
				return imax;
			return imin;
''')
# --- Profiling/Matrix etc
r('Matrix.h','''		for (SizeType i = 0; i < data_.size(); i++)
			data_[i] = std::''','''		for (SizeType i = 0; i < data_.size(); i++)
			data_[i] = std::''')
