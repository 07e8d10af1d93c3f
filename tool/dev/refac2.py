R=[]
def r(f,o,n): R.append((f,o,n))
# helper extraction + loop rewrite
r('LoadBalancerWeights.h','''		for (SizeType iii = 0; iii < ntasks; ++iii) {
			SizeType ii = ntasks - 1 - iii; // because sort is ascending
			SizeType thread = findThreadWithLightestWork(workLoad);
			// assign work to thread
			assert(thread < taskNumber_.size());
			taskNumber_[thread].push_back(iperm[ii]);
			// update work loads
			assert(thread < workLoad.size());
			workLoad[thread] += weights[iperm[ii]];
		}
''','''		for (SizeType ii = ntasks; ii > 0; --ii)
			assign(workLoad, iperm[ii - 1], weights);
''')
r('LoadBalancerWeights.h','''	SizeType
	findThreadWithLightestWork(''','''	void assign(VectorSizeType& workLoad, SizeType task, const VectorSizeType& weights)
	{
		const SizeType thread = findThreadWithLightestWork(workLoad);
		assert(thread < taskNumber_.size());
		taskNumber_[thread].push_back(task);
		assert(thread < workLoad.size());
		workLoad[thread] += weights[task];
	}

	SizeType
	findThreadWithLightestWork(''')
r('PthreadsNg.h','''		for (SizeType j = 0; j < actualThreads; ++j)
			pthread_join(thread_id[j], 0);
		for (SizeType j = 0; j < actualThreads; ++j) {
			int ret = pthread_attr_destroy(attr[j]);
			checkForError(ret);
			delete attr[j];
			attr[j] = 0;
		}

		delete[] attr;
		delete[] thread_id;
		delete[] pfs;
''','''		joinAll(thread_id, actualThreads);
		for (SizeType j = 0; j < actualThreads; ++j) {
			checkForError(pthread_attr_destroy(attr[j]));
			delete attr[j];
		}

		delete[] pfs;
		delete[] thread_id;
		delete[] attr;
''')
r('PthreadsNg.h','''private:

#ifndef __APPLE__
	void getPidAffinity''','''private:

	static void joinAll(pthread_t* ids, SizeType n)
	{
		for (SizeType j = 0; j != n; ++j)
			pthread_join(ids[j], nullptr);
	}

#ifndef __APPLE__
	void getPidAffinity''')
r('PthreadsNg.h','''	for (SizeType p = 0; p < blockSize; ++p) {
		SizeType taskNumber = pfs->loadBalancer->taskNumber(pfs->threadNum, p);
		if (taskNumber >= pfs->total)
			break;
		pfh->doTask(taskNumber, pfs->threadNum);
	}
''','''	const SizeType total = pfs->total;
	SizeType p = 0;
	while (p < blockSize) {
		const SizeType task = pfs->loadBalancer->taskNumber(pfs->threadNum, p++);
		if (task < total)
			pfh->doTask(task, pfs->threadNum);
		else
			break;
	}
''')
r('PredicateSimple.h','''		while (true) {
			size_t index = hs.find(name);
			if (index == String::npos)
				return hs;
			String part1 = (index == 0) ? "" : hs.substr(0, index);
			String part2 = hs.substr(index + nameLength,
			                         hs.length() - nameLength - index);
			hs = part1 + valString + part2;
		}

		return hs;
''','''		size_t index = hs.find(name);
		while (index != String::npos) {
			const String before = (index == 0) ? "" : hs.substr(0, index);
			const String after = hs.substr(index + nameLength,
			                               hs.length() - nameLength - index);
			hs = before + valString + after;
			index = hs.find(name);
		}

		return hs;
''')
r('PredicateSimple.h','''		for (SizeType i = 0; i < n; ++i) {
			buffer = replaceVariable(buffer, names[i], vals[i]);
		}
''','''		SizeType i = 0;
		while (i < n) {
			buffer = replaceVariable(buffer, names[i], vals[i]);
			++i;
		}
''')
r('PsiBase64.h','''					for (i = 0; (i < 4); i++)
						buffer_ += base64Chars_[charArray4[i]];
					i = 0;
''','''					for (int k = 0; k < 4; ++k)
						buffer_ += base64Chars_[charArray4[k]];
					i = 0;
''')
r('PsiBase64.h','''			return (isalnum(c) || (c == '+') || (c == '/'));''','''			if (c == '/' || c == '+')
				return true;
			return isalnum(c);''')
r('MersenneTwister.cpp','''	index_ = 0;
	state_[0] = s;
	for (unsigned i = 1; i < N_; ++i) {
		unsigned tmp = state_[i - 1] ^ (state_[i - 1] >> 30);
		state_[i] = keepLast32BitMask_ & (1812433253 * (tmp + i));
	}
''','''	state_[0] = s;
	unsigned i = 1;
	while (i < N_) {
		const unsigned prev = state_[i - 1];
		state_[i] = (1812433253 * ((prev ^ (prev >> 30)) + i)) & keepLast32BitMask_;
		++i;
	}

	index_ = 0;
''')
r('MersenneTwister.cpp','''	index_ = (index_ + 1) % N_;

	return y;''','''	++index_;
	index_ %= N_;
	return y;''')
r('SparseVector.h','''				if (v.indices_[j] < index)
					continue;
				if (v.indices_[j] > index)
					break;
				if (v.indices_[j] == index)
					sum += values_[i] * PsimagLite::conj(v.values_[j]);
''','''				const SizeType other = v.indices_[j];
				if (other > index)
					break;
				if (other == index)
					sum += PsimagLite::conj(v.values_[j]) * values_[i];
''')
r('SparseVector.h','''			if (indices_[i] != prevIndex) {
				if (PsimagLite::norm(sum) > 1e-16) {
					values_.push_back(sum);
					indices.push_back(prevIndex);
				}
				sum = values[i];
				prevIndex = indices_[i];
			}
			else {
				sum += values[i];
			}
''','''			if (indices_[i] == prevIndex) {
				sum += values[i];
				continue;
			}

			if (PsimagLite::norm(sum) > 1e-16) {
				indices.push_back(prevIndex);
				values_.push_back(sum);
			}

			prevIndex = indices_[i];
			sum = values[i];
''')
r('CrsMatrix.h','''		SizeType nrow = this->nrow_;
		this->nrow_ = other.nrow_;
		other.nrow_ = nrow;
		SizeType ncol = this->ncol_;
		this->ncol_ = other.ncol_;
		other.ncol_ = ncol;
''','''		std::swap(nrow_, other.nrow_);
		std::swap(ncol_, other.ncol_);
''')
r('CrsMatrix.h','''	SizeType ipos = 0;
	for (SizeType ib = 0; ib < nrowB; ib++) {
		B.setRow(ib, ipos);
		ipos += nnz_count[ib];
	};
	assert(ipos == nnz_B);
	B.setRow(nrowB, nnz_B);

	// -------------------------------
	// setup row pointers in B matrix
	// -------------------------------
	std::vector<SizeType> B_rowptr(nrowB);
	for (SizeType ib = 0; ib < nrowB; ib++) {
		B_rowptr[ib] = B.getRowPtr(ib);
	};
''','''	std::vector<SizeType> B_rowptr(nrowB);
	SizeType ipos = 0;
	for (SizeType ib = 0; ib < nrowB; ++ib) {
		B_rowptr[ib] = ipos;
		B.setRow(ib, ipos);
		ipos += nnz_count[ib];
	}

	assert(ipos == nnz_B);
	B.setRow(nrowB, nnz_B);
''')
r('CrsMatrix.h','''		for (int k = kstart_B; k < kend_B; k++) {
			const SizeType jcol = B.getCol(k);
			valueTmp[jcol] = zero;
			is_examined_already[jcol] = false;
		};

		for (int k = kstart_C; k < kend_C; k++) {
			const SizeType jcol = C.getCol(k);
			valueTmp[jcol] = zero;
			is_examined_already[jcol] = false;
		};
''','''		for (int k = kstart_C; k < kend_C; ++k) {
			is_examined_already[C.getCol(k)] = false;
			valueTmp[C.getCol(k)] = zero;
		}

		for (int k = kstart_B; k < kend_B; ++k) {
			is_examined_already[B.getCol(k)] = false;
			valueTmp[B.getCol(k)] = zero;
		}
''')
r('CrsMatrix.h','''		ioSerializer.write(label + "/nrow_", nrow_, mode);
		ioSerializer.write(label + "/ncol_", ncol_, mode);
		if (nrow_ == 0 || ncol_ == 0)
			return;
		ioSerializer.write(label + "/rowptr_", rowptr_, mode);
		assert(rowptr_.size() == nrow_ + 1);
		if (rowptr_[nrow_] == 0)
			return;
		ioSerializer.write(label + "/colind_", colind_, mode);
		ioSerializer.write(label + "/values_", values_, mode);
''','''		const String prefix = label + "/";
		ioSerializer.write(prefix + "nrow_", nrow_, mode);
		ioSerializer.write(prefix + "ncol_", ncol_, mode);
		const bool empty = (nrow_ == 0 || ncol_ == 0);
		if (!empty) {
			ioSerializer.write(prefix + "rowptr_", rowptr_, mode);
			assert(rowptr_.size() == nrow_ + 1);
			if (rowptr_[nrow_] != 0) {
				ioSerializer.write(prefix + "colind_", colind_, mode);
				ioSerializer.write(prefix + "values_", values_, mode);
			}
		}
''')
r('Geometry/LadderX.h','''		SizeType imin = (i1 < i2) ? i1 : i2;
		switch (dir) {
		case DIRECTION_X:
			return imin;
		case DIRECTION_Y:
			return imin - imin / leg_;
		case DIRECTION_XPY: // only checked for leg_=2
			return (imin - 1) / leg_;
		case DIRECTION_XMY: // only checked for leg_=2
			return imin / leg_;
		}
		throw RuntimeError("handle: Unknown direction\\n");
''','''		const SizeType imin = std::min(i1, i2);
		if (dir == DIRECTION_X)
			return imin;
		if (dir == DIRECTION_Y)
			return imin - imin / leg_;
		if (dir == DIRECTION_XPY)
			return (imin - 1) / leg_;
		if (dir == DIRECTION_XMY)
			return imin / leg_;
		throw RuntimeError("handle: Unknown direction\\n");
''')
r('Geometry/LadderX.h','''		bool a = (i < emin && i >= smax - 1);
		bool b = (i > smax && i <= emin + 1);
		if (smax & 1)
			return (a || b);
		a = (i < emin && i >= smax - 2);
		b = (i > smax && i <= emin + 2);
		return (a || b);
''','''		const SizeType delta = (smax & 1) ? 1 : 2;
		if (i < emin && i >= smax - delta)
			return true;
		return (i > smax && i <= emin + delta);
''')
r('RedirectOutput.hh','''		if (cout_buffer_ == 0) {
			return;
		}

		cout_stream_.close();
		std::cout.rdbuf(cout_buffer_);
''','''		if (cout_buffer_ != nullptr) {
			cout_stream_.close();
			std::cout.rdbuf(cout_buffer_);
		}
''')
r('SumDecomposition.h','''			if (std::accumulate(data.begin(), data.end(), sum) != sum_)
				return;
			bool b1 = (sel_ == SEL_ALL);
			bool b2 = (sel_ == SEL_INDEX && selection_ == size_);
			if (b1 || b2)
				data_.push_back(data);
			size_++;
			return;
''','''			for (SizeType k = 0; k < data.size(); ++k)
				sum += data[k];
			if (sum == sum_) {
				if (sel_ == SEL_ALL || (sel_ == SEL_INDEX && selection_ == size_))
					data_.push_back(data);
				++size_;
			}
			return;
''')
r('ChebyshevFunction.h','''		if (m & 1) {
			int p = (m - 1) / 2;
			return (2 * this->operator()(p, x) * this->operator()(p + 1, x) - x);
		}

		int pp = m / 2;
		RealType tmp = this->operator()(pp, x);
		return (2 * tmp * tmp - 1);
''','''		if ((m & 1) == 0) {
			const RealType half = this->operator()(m / 2, x);
			return (2 * half * half - 1);
		}

		const int p = (m - 1) / 2;
		const RealType a = this->operator()(p, x);
		const RealType b = this->operator()(p + 1, x);
		return (2 * a * b - x);
''')
r('Matrix.h','''	psimag::BLAS::GEMM('C', 'N', transform.cols(), m.cols(), m.rows(), 1.0, &(transform(0, 0)), transform.rows(), &(m(0, 0)), m.rows(), 0.0, &(C(0, 0)), C.rows());
''','''	const SizeType tr = transform.rows();
	const SizeType tc = transform.cols();
	psimag::BLAS::GEMM('C', 'N', tc, m.cols(), m.rows(), 1.0, &(transform(0, 0)), tr, &(m(0, 0)), m.rows(), 0.0, &(C(0, 0)), tc);
''')
r('Matrix.h','''	lwork = static_cast<int>(PsimagLite::real(work[0]));
	work.resize(lwork + 2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	String s = "[cz]getri_ failed\\n";
	if (info != 0)
		throw RuntimeError(s.c_str());
''','''	const T optimal = work[0];
	lwork = static_cast<int>(PsimagLite::real(optimal));
	work.resize(lwork + 2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	if (info == 0)
		return;
	throw RuntimeError("[cz]getri_ failed\\n");
''')
r('Matrix.h','''	v.resize(a.cols());
	for (SizeType i = 0; i < a.cols(); i++) {
		T sum = 0;
		for (SizeType j = 0; j < b.size(); j++)
			sum += b[j] * a(j, i);
		v[i] = sum;
	}
''','''	const SizeType n = a.cols();
	v.resize(n);
	for (SizeType i = 0; i < n; ++i) {
		v[i] = 0;
		for (SizeType j = 0; j < b.size(); ++j)
			v[i] += a(j, i) * b[j];
	}
''')
r('Matrix.h','''		if (nrow_ <= 0 || ncol_ <= 0)
			throw RuntimeError("Matrix::nrows or ncols negative: "
			                   "cannot construct\\n");

		data_.resize(nrow_ * ncol_);
		for (SizeType i = 0; i < nrow_; ++i)
			for (SizeType j = 0; j < ncol_; ++j)
				io >> data_[i + j * nrow_];
''','''		if (nrow_ == 0 || ncol_ == 0)
			throw RuntimeError("Matrix::nrows or ncols negative: "
			                   "cannot construct\\n");

		data_.resize(nrow_ * ncol_);
		for (SizeType i = 0; i < nrow_; ++i) {
			SizeType pos = i;
			for (SizeType j = 0; j < ncol_; ++j, pos += nrow_)
				io >> data_[pos];
		}
''')
r('MpiYes.h','''		SizeType total = v.size();
		recv(total, source, tag, mpiComm);
		if (v.size() != total)
			v.resize(total);
		int errorCode = MPI_Recv(&(v[0]), 2 * v.size(), datatype, source, tag, mpiComm, &status);
		checkError(errorCode, name, mpiComm);
''','''		SizeType total = 0;
		recv(total, source, tag, mpiComm);
		if (total != v.size())
			v.resize(total);
		const int count = 2 * total;
		checkError(MPI_Recv(&(v[0]), count, datatype, source, tag, mpiComm, &status), name, mpiComm);
''')
r('Permutations.h','''		int saved = -1;
		SizeType tot = data_.size() - 1;
		for (SizeType i = 0; i < tot; i++) {
			if (data_[i] < data_[i + 1])
				saved = i;
		}
		return saved;
''','''		for (int i = static_cast<int>(data_.size()) - 2; i >= 0; --i)
			if (data_[i] < data_[i + 1])
				return i;
		return -1;
''')
r('Sort.h','''		for (SizeType i = 0; i < n; i++) {
			p[i].first = xread[i];
			p[i].second = i;
		}
''','''		for (SizeType i = 0; i < n; i++)
			p[i] = PairType(xread[i], i);
''')
r('RungeKutta.h','''			VectorType myresult(findSizeOf(yi));
			for (SizeType j = 0; j < myresult.size(); j++)
				myresult[j] = findValueOf(yi, j);
			result.push_back(myresult);
			ti += h_;
''','''			const SizeType total = findSizeOf(yi);
			VectorType myresult(total);
			for (SizeType j = 0; j < total; j++)
				myresult[j] = findValueOf(yi, j);
			ti += h_;
			result.push_back(myresult);
''')
r('Minimizer.h','''			if (status_ == GSL_SUCCESS)
				break;
		}

		found(minVector, gslS_->x, iter);
		gsl_vector_free(x);
		gsl_vector_free(xs);
		return iter;
	}

	int conjugateGradient(''','''			if (status_ == GSL_SUCCESS)
				break;
		}

		found(minVector, gslS_->x, iter);
		gsl_vector_free(xs);
		gsl_vector_free(x);
		return iter;
	}

	int conjugateGradient(''')
r('TridiagonalMatrix.h','''		m.resize(n, n, 0);
		for (SizeType i = 0; i < n - 1; ++i) {
			m(i, i) = a_[i];
			m(i, i + 1) = b_[i + 1];
			m(i + 1, i) = PsimagLite::conj(b_[i + 1]);
		}

		m(n - 1, n - 1) = a_[n - 1];
''','''		m.resize(n, n, 0);
		for (SizeType i = 0; i < n; ++i) {
			m(i, i) = a_[i];
			if (i + 1 == n)
				continue;
			const FieldType off = b_[i + 1];
			m(i + 1, i) = PsimagLite::conj(off);
			m(i, i + 1) = off;
		}
''')
