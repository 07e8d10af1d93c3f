R=[]
def r(f,o,n): R.append((f,o,n))
# Honeycomb
r('Geometry/Honeycomb.h','''		bool normal = (ii1 < ii2);
		SizeType i1 = (normal) ? ii1 : ii2;
		SizeType i2 = (normal) ? ii2 : ii1;
''','''		const SizeType i1 = std::min(ii1, ii2);
		const SizeType i2 = std::max(ii1, ii2);
''')
r('Geometry/Honeycomb.h','''		if (isDirectionX(x1, y1, x2, y2))
			return std::pair<bool, Dir>(true, DIR_X);

		if (isDirectionY(x1, y1, x2, y2))
			return std::pair<bool, Dir>(true, DIR_Y);

		if (isDirectionZ(x1, y1, x2, y2))
			return std::pair<bool, Dir>(true, DIR_Z);

		return falseDir;
''','''		if (isDirectionX(x1, y1, x2, y2))
			return std::make_pair(true, DIR_X);
		else if (isDirectionY(x1, y1, x2, y2))
			return std::make_pair(true, DIR_Y);
		else if (isDirectionZ(x1, y1, x2, y2))
			return std::make_pair(true, DIR_Z);

		return falseDir;
''')
r('Geometry/Honeycomb.h','''		if (y < 2)
			return false;
		y -= 2;
		return ((y % 4) == 0);
''','''		return (y >= 2 && (y - 2) % 4 == 0);
''')
r('Geometry/Honeycomb.h','''		SizeType dy = y2 - y1;
		if (dy == 1 && is4nPlus2(y1))
			return true;
		return (periodicY_ && (dy + 1 == ly_) && is4nPlus2(y2));
''','''		return isInSameCol(y1, y2, is4nPlus2(y1), is4nPlus2(y2));
''')
r('Geometry/Honeycomb.h','''	bool isThereAneighbor(SizeType ind''','''	bool isInSameCol(SizeType y1, SizeType y2, bool first, bool second) const
	{
		const SizeType dy = y2 - y1;
		if (first && dy == 1)
			return true;
		if (!periodicY_ || dy + 1 != ly_)
			return false;
		return second;
	}

	bool isThereAneighbor(SizeType ind''')
# GeometryTerm
r('Geometry/GeometryTerm.h','''		bool bothFringe = (geometryBase_->fringe(i1, smax, emin) && geometryBase_->fringe(i2, smax, emin));

		if (!bothFringe)
			return geometryBase_->connected(i1, i2);
		// std::cerr<<"fringe= "<<i1<<" "<<i2<<"\\n";
		return true;
''','''		if (areBothFringe(smax, emin, i1, i2))
			return true;

		return geometryBase_->connected(i1, i2);
''')
r('Geometry/GeometryTerm.h','''	void cacheValues()
	{''','''	bool areBothFringe(SizeType smax, SizeType emin, SizeType i1, SizeType i2) const
	{
		return geometryBase_->fringe(i1, smax, emin) && geometryBase_->fringe(i2, smax, emin);
	}

	void cacheValues()
	{''')
r('Geometry/GeometryTerm.h','''			if (i2 < i1) {
				siteNew1 = i2;
				siteNew2 = i1;
				edofNew1 = edof2;
				edofNew2 = edof1;
			}
''','''			if (i1 > i2) {
				std::swap(siteNew1, siteNew2);
				std::swap(edofNew1, edofNew2);
			}
''')
r('Geometry/GeometryTerm.h','''						if (!connected(i, j)) {
							os << 0 << " ";
							continue;
						}
						os << operator()(i, dof1, j, dof2)
						   << " ";
''','''						if (connected(i, j))
							os << operator()(i, dof1, j, dof2) << " ";
						else
							os << 0 << " ";
''')
r('Geometry/GeometryTerm.h','''		if (geometryBase_)
			delete geometryBase_;
''','''		delete geometryBase_;
''')
r('Geometry/GeometryTerm.h','''					int k1 = geometryBase_->index(
					    i1, edof1, orbitals_);
					if (k1 < 0)
						continue;
					for (SizeType edof2 = 0;
					     edof2 < orbitals_;
					     edof2++) {
						int k2 = geometryBase_->index(
						    i2, edof2, orbitals_);
						if (k2 < 0)
							continue;
						cachedValues_(k1, k2) = calcValue(i1, edof1, i2, edof2);
					}
''','''					const int k1 = geometryBase_->index(i1, edof1, orbitals_);
					if (k1 < 0)
						continue;
					for (SizeType edof2 = 0; edof2 < orbitals_; ++edof2) {
						const int k2 = geometryBase_->index(i2, edof2, orbitals_);
						if (k2 >= 0)
							cachedValues_(k1, k2) = calcValue(i1, edof1, i2, edof2);
					}
''')
# LanczosVectors
r('LanczosVectors.h','''		RealType atmp = 0.0;
		for (SizeType h = 0; h < nn; h++)
			atmp += PsimagLite::real(
			    V2[h] * PsimagLite::conj(V1[h])); // <V1|V2>
		ab.a(iter) = atmp;

		RealType btmp = 0.0;
		for (SizeType h = 0; h < nn; h++) {
			V2[h] = V2[h] - ab.a(iter) * V1[h] - ab.b(iter) * V0[h]; // V2 = V2 - alpha*V1 - beta*V0;
			btmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
		}

		btmp = sqrt(btmp);
		if (iter + 1 < ab.size())
			ab.b(iter + 1) = btmp; // beta = sqrt(V2*V2)

		if (btmp > 0) {
			btmp = 1.0 / btmp;
			for (SizeType i = 0; i < nn; i++)
				V2[i] *= btmp; // normalize V2
		}
''','''		RealType alpha = 0.0;
		for (SizeType h = 0; h < nn; ++h)
			alpha += PsimagLite::real(V2[h] * PsimagLite::conj(V1[h]));
		ab.a(iter) = alpha;

		for (SizeType h = 0; h < nn; ++h)
			V2[h] = V2[h] - ab.a(iter) * V1[h] - ab.b(iter) * V0[h];

		const RealType beta = realNorm(V2);
		if (iter + 1 < ab.size())
			ab.b(iter + 1) = beta;

		if (beta > 0) {
			const RealType factor = 1.0 / beta;
			for (SizeType h = 0; h < nn; ++h)
				V2[h] *= factor;
		}
''')
r('LanczosVectors.h','''	void dealWithStorageOfV(SizeType rows, SizeType cols)
	{''','''	static RealType realNorm(const VectorType& v)
	{
		RealType sum = 0.0;
		const SizeType n = v.size();
		for (SizeType i = 0; i < n; ++i)
			sum += PsimagLite::real(v[i] * PsimagLite::conj(v[i]));
		return sqrt(sum);
	}

	void dealWithStorageOfV(SizeType rows, SizeType cols)
	{''')
r('LanczosVectors.h','''		if (data_) {
			if (rows != data_->rows() || cols != data_->cols())
				throw RuntimeError("LanczosVectors: data has "
				                   "already been set!\\n");
			return;
		}
''','''		if (data_) {
			if (rows == data_->rows() && cols == data_->cols())
				return;
			throw RuntimeError("LanczosVectors: data has already been set!\\n");
		}
''')
r('LanczosVectors.h','''		delete overlap_;
		overlap_ = 0;
		if (!needsDelete_)
			return;
		delete data_;
		data_ = 0;
''','''		if (needsDelete_) {
			delete data_;
			data_ = nullptr;
		}

		delete overlap_;
		overlap_ = nullptr;
''')
# LanczosCore
r('LanczosCore.h','''			deltaMax = 0;
			for (SizeType ii = 0; ii < eigsForError; ++ii) {
				const RealType delta = fabs(tmpEigs[ii] - eold[ii]);
				eold[ii] = tmpEigs[ii];
				if (delta > deltaMax)
					deltaMax = delta;
			}

			if (deltaMax < params_.tolerance)
				exitFlag = true;
			if (j == max_nstep - 1)
				exitFlag = true;
''','''			deltaMax = updateError(eold, tmpEigs, eigsForError);

			if (deltaMax < params_.tolerance || j == max_nstep - 1)
				exitFlag = true;
''')
r('LanczosCore.h','''private:

	ProgressIndicator progress_;''','''private:

	static RealType updateError(VectorRealType& eold, const VectorRealType& eigs, SizeType n)
	{
		RealType result = 0;
		for (SizeType ii = 0; ii < n; ++ii) {
			const RealType delta = fabs(eigs[ii] - eold[ii]);
			if (delta > result)
				result = delta;
			eold[ii] = eigs[ii];
		}
		return result;
	}

	ProgressIndicator progress_;''')
r('LanczosCore.h','''			for (SizeType i = 0; i < matsize; ++i) {
				V0[i] = V1[i];
				V1[i] = V2[i];
			}
''','''			for (SizeType i = 0; i < matsize; ++i)
				V0[i] = V1[i];
			for (SizeType i = 0; i < matsize; ++i)
				V1[i] = V2[i];
''')
# LanczosSolver
r('LanczosSolver.h','''		SizeType n = z.size();
		if (n > excited + 1)
			n = excited + 1;
''','''		const SizeType n = (z.size() > excited + 1) ? excited + 1 : z.size();
''')
# Tridiagonal
r('TridiagonalMatrix.h','''		for (SizeType i = 0; i < n - 1; ++i) {
			m(i, i) = a_[i];
			m(i, i + 1) = b_[i + 1];
			m(i + 1, i) = PsimagLite::conj(b_[i + 1]);
		}

		m(n - 1, n - 1) = a_[n - 1];
''','''		for (SizeType i = 0; i < n; ++i)
			m(i, i) = a_[i];
		for (SizeType i = 1; i < n; ++i) {
			m(i - 1, i) = b_[i];
			m(i, i - 1) = PsimagLite::conj(b_[i]);
		}
''')
r('TridiagonalMatrix.h','''		for (SizeType i = 0; i < n; i++)
			a_[i] = b_[i] = value;
''','''		std::fill(a_.begin(), a_.end(), value);
		std::fill(b_.begin(), b_.end(), value);
''')
r('TridiagonalMatrix.cpp','''	if (info == 0)
		return;
	std::cerr << "dstedc_ failed with info = " << info << "\\n";
	throw RuntimeError("dstedc_ FAILED\\n");
''','''	if (info != 0) {
		std::cerr << "dstedc_ failed with info = " << info << "\\n";
		throw RuntimeError("dstedc_ FAILED\\n");
	}
''')
