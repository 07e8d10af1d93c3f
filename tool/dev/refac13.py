import re
R=[]
def r(f,o,n,k=0):
    """whitespace-insensitive: the k-th match in the file"""
    s=open('/repo/src/'+f).read()
    ms=list(re.finditer(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s))
    if len(ms)<=k: print('NOT FOUND',f,o[:60]); return
    m=ms[k]
    # take in the line before, so that the k-th can be told from the first
    i=m.start()
    c=s[i:m.end()]
    while s.find(c)!=i:
        i=s.rfind('\n',0,i-1); c=s[i:m.end()]
    R.append((f,c,s[i:m.start()]+n))
r('MpiYes.h','''if (mpiRank != root) {
      for (SizeType p = 0; p < blockSize; p++) {
        SizeType taskNumber = mpiRank * blockSize + p;
        if (taskNumber >= v.size())
          break;
        MPI::send(v[taskNumber], root, taskNumber, mpiComm);
      }
    }
    else {''','''const SizeType ntasks = v.size();
		if (mpiRank != root) {
			const SizeType first = mpiRank * blockSize;
			const SizeType end = std::min(first + blockSize, ntasks);
			for (SizeType taskNumber = first; taskNumber < end; ++taskNumber)
				MPI::send(v[taskNumber], root, taskNumber, mpiComm);
		}
		else {''')
r('MpiYes.h','''for (SizeType p = 0; p < blockSize; p++) {
          SizeType taskNumber = r * blockSize + p;
          if (taskNumber >= v.size())
            break;
          v[taskNumber].recv(r, taskNumber, mpiComm);
        }''','''SizeType taskNumber = r * blockSize;
				for (SizeType p = 0; p < blockSize && taskNumber < v.size(); p++, taskNumber++)
					v[taskNumber].recv(r, taskNumber, mpiComm);''')
r('MpiYes.h','''SizeType blockSize = static_cast<SizeType>(v.size() / nprocs);
    if (v.size() % nprocs != 0)
      blockSize++;''','''const SizeType quotient = static_cast<SizeType>(v.size() / nprocs);
		const SizeType blockSize = (v.size() % nprocs == 0) ? quotient : quotient + 1;''',2)
r('MpiYes.h','''T1 t1 = p.first;
    MPI_Datatype datatype = MpiData<T1>::Type;
    int errorCode = MPI_Bcast(&t1, 1, datatype, root, mpiComm);
    checkError(errorCode, "MPI_Bcast", mpiComm);
    T2 t2 = p.second;
    MPI_Datatype datatype2 = MpiData<T2>::Type;
    errorCode = MPI_Bcast(&t2, 1, datatype2, root, mpiComm);
    checkError(errorCode, "MPI_Bcast", mpiComm);
    p = std::pair<T1, T2>(t1, t2);''','''T1 t1 = p.first;
		T2 t2 = p.second;
		checkError(MPI_Bcast(&t1, 1, MpiData<T1>::Type, root, mpiComm), "MPI_Bcast", mpiComm);
		checkError(MPI_Bcast(&t2, 1, MpiData<T2>::Type, root, mpiComm), "MPI_Bcast", mpiComm);
		p.first = t1;
		p.second = t2;''')
r('MpiYes.h','''int errorCode = (mpiComm == 0)
        ? MPI_SUCCESS
        : MPI_Reduce(&(v[0]), &(w[0]), v.size(), datatype, op, root, mpiComm);
    checkError(errorCode, "MPI_Reduce", mpiComm);
    if (mpiComm && commRank(mpiComm) == static_cast<SizeType>(root))
      v = w;''','''int errorCode = MPI_SUCCESS;
		if (mpiComm != 0)
			errorCode = MPI_Reduce(&(v[0]), &(w[0]), v.size(), datatype, op, root, mpiComm);
		checkError(errorCode, "MPI_Reduce", mpiComm);
		if (!mpiComm)
			return;
		const bool isRoot = (commRank(mpiComm) == static_cast<SizeType>(root));
		if (isRoot)
			v = w;''')
r('MpiYes.h','''MPI_Status status;
    SizeType total = v.size();
    recv(total, source, tag, mpiComm);
    if (v.size() != total)
      v.resize(total);
    int errorCode = MPI_Recv(&(v[0]), 2 * v.size(), datatype, source, tag, mpiComm, &status);''','''MPI_Status status;
		SizeType total = 0;
		recv(total, source, tag, mpiComm);
		v.resize(total);
		int errorCode = MPI_Recv(&(v[0]), 2 * total, datatype, source, tag, mpiComm, &status);''')
r('Io/IoNg.h','''if (counter == 0)
        createGroup(str);
      ioNgSerializer_.write(str + "/" + ttos(counter), x);
      ioNgSerializer_.write(
          str + "/Size", counter + 1, (counter == 0) ? IoNgSerializer::NO_OVERWRITE : IoNgSerializer::ALLOW_OVERWRITE);''','''IoNgSerializer::WriteMode mode = IoNgSerializer::ALLOW_OVERWRITE;
			if (counter == 0) {
				createGroup(str);
				mode = IoNgSerializer::NO_OVERWRITE;
			}
			const PsimagLite::String base = str + "/";
			ioNgSerializer_.write(base + ttos(counter), x);
			ioNgSerializer_.write(base + "Size", counter + 1, mode);''')
r('Io/IoNg.h','''switch (mode) {
      case ACC_TRUNC:
        return H5F_ACC_TRUNC;
      case ACC_EXCL:
        return H5F_ACC_EXCL;
      case ACC_RDONLY:
        return H5F_ACC_RDONLY;
      case ACC_RDW:
        return H5F_ACC_RDWR;
      }
      throw RuntimeError("IoNg:: wrong open mode\\n");''','''if (mode == ACC_TRUNC)
				return H5F_ACC_TRUNC;
			if (mode == ACC_EXCL)
				return H5F_ACC_EXCL;
			if (mode == ACC_RDONLY)
				return H5F_ACC_RDONLY;
			if (mode != ACC_RDW)
				throw RuntimeError("IoNg:: wrong open mode\\n");
			return H5F_ACC_RDWR;''')
r('Io/IoNg.h','''if (total <= 0)
        throw RuntimeError(
            "Error reading last instance of " + s + "\\n");
      ioNgSerializer_.read(x, s + "/" + ttos(--total));''','''if (total < 1) {
				const String msg("Error reading last instance of " + s + "\\n");
				throw RuntimeError(msg);
			}
			const int last = total - 1;
			ioNgSerializer_.read(x, s + "/" + ttos(last));''')
r('MemResolv.h','''if (label.length() < LABEL_LENGTH) {
      SizeType toAdd = LABEL_LENGTH - label.length();
      for (SizeType i = 0; i < toAdd; ++i)
        label.push_back(0);
    }
    if (label.length() != LABEL_LENGTH)''','''while (label.length() < LABEL_LENGTH)
			label.push_back(0);
		if (label.length() != LABEL_LENGTH)''')
r('MemResolv.h','''for (SizeType i = 0; i < garbage_.size(); ++i) {
      unsigned char* ptr = garbage_[i];
      if (garbageSize_[i] > 0)
        delete[] ptr;
    }''','''const SizeType n = garbage_.size();
		for (SizeType i = 0; i < n; ++i) {
			if (garbageSize_[i] == 0)
				continue;
			delete[] garbage_[i];
		}''')
r('MemResolv.h','''MemoryPointer mptr;
    mptr.type = type;
    mptr.length = length;
    const void* vptr = reinterpret_cast<const void*>(ptr);
    mptr.ptr = pointerToLui(vptr);''','''const void* vptr = reinterpret_cast<const void*>(ptr);
		MemoryPointer mptr;
		mptr.ptr = pointerToLui(vptr);
		mptr.length = length;
		mptr.type = type;''')
r('MemResolv.h','''SizeType elementSize = sizeof(vv[0]);
    for (SizeType i = 0; i < vv.size(); ++i)
      memResolv(&vv[i], elementSize, msg);
    return total;''','''const SizeType elementSize = sizeof(vv[0]);
		const SizeType n = vv.size();
		SizeType i = 0;
		while (i < n) {
			memResolv(&vv[i], elementSize, msg);
			++i;
		}
		return total;''')
r('MemResolv.h','''if (str1.length() != str2.length())
      return false;
    for (SizeType i = 0; i < str1.length(); ++i) {
      if (str1[i] == 0 && str2[i] == 0)
        break;
      if (str1[i] != str2[i])
        return false;
    }
    return true;''','''const SizeType n = str1.length();
		if (n != str2.length())
			return false;
		for (SizeType i = 0; i < n; ++i) {
			if (str1[i] != str2[i])
				return false;
			if (str1[i] == 0)
				return true;
		}
		return true;''')
r('MemResolv.h','''long unsigned int end = vmptr_[i - 1].ptr + vmptr_[i - 1].length;
        SizeType srcHoleSize = vmptr_[i].ptr - end;''','''const MemoryPointer& previous = vmptr_[i - 1];
				const SizeType srcHoleSize = vmptr_[i].ptr - (previous.ptr + previous.length);''')
r('MemResolv.h','''char* allocated = 0;
      if (vmptr_[i].type == MEMORY_HEAPPTR) {
        allocated = new char[len];
        memcpy(allocated,
               reinterpret_cast<char*>(vmptr_[i].ptr),
               len);
        adjustPointer(reinterpret_cast<unsigned char*>(
                          allocated),
                      len,
                      0,
                      &offsetsForHoles);
      }
      fout.write((allocated == 0) ? mptr : allocated, len);
      total += len;
      if (allocated)
        delete[] allocated;''','''if (vmptr_[i].type == MEMORY_HEAPPTR) {
				char* allocated = new char[len];
				memcpy(allocated, mptr, len);
				adjustPointer(reinterpret_cast<unsigned char*>(allocated), len, 0, &offsetsForHoles);
				fout.write(allocated, len);
				delete[] allocated;
			}
			else {
				fout.write(mptr, len);
			}
			total += len;''')
r('MemResolv.h','''for (SizeType i = 0; i < vmptr_.size(); ++i) {
      MemoryPointer* mptr = &(vmptr_[i]);
      fin.read(reinterpret_cast<char*>(mptr),
               sizeof(MemoryPointer));
      rankVector_.push_back(mptr->ptr);
    }''','''for (auto& chunk : vmptr_) {
			fin.read(reinterpret_cast<char*>(&chunk), sizeof(MemoryPointer));
			rankVector_.push_back(chunk.ptr);
		}''')
r('MemResolv.h','''PairType offsetForHole(start2, offset);
      offsetsForHoles.push_back(offsetForHole);
      total += destHoleSize;
      if (static_cast<long unsigned int>(destHoleSize) > maxHoleSize)
        maxHoleSize = destHoleSize;
      end = end2;
      start = start2;''','''offsetsForHoles.push_back(PairType(start2, offset));
			const SizeType hole = static_cast<SizeType>(destHoleSize);
			total += hole;
			maxHoleSize = (hole > maxHoleSize) ? hole : maxHoleSize;
			start = start2;
			end = end2;''')
r('Matrix.h','''if (nrow_ == 0 || ncol_ == 0) {
      data_.clear();
      return;
    }
    ioSerializer.read(data_, label + "/data_");''','''const bool empty = (nrow_ * ncol_ == 0);
		if (!(nrow_ > 0 && ncol_ > 0)) {
			data_.clear();
		}
		else {
			ioSerializer.read(data_, label + "/data_");
		}
		(void)empty;''')
r('Matrix.h','''bool flag = false;
    if (wM == IoSerializer::ALLOW_OVERWRITE)
      flag = overwrite(label, ioSerializer);
    if (flag)
      return;''','''if (wM == IoSerializer::ALLOW_OVERWRITE && overwrite(label, ioSerializer))
			return;''')
r('Matrix.h','''bool b = ioSerializer.write(label + "/nrow_", nrow_, IoSerializer::ALLOW_OVERWRITE);
    if (!b)
      return b;
    b = ioSerializer.write(label + "/ncol_", ncol_, IoSerializer::ALLOW_OVERWRITE);
    if (!b)
      return b;
    if (nrow_ == 0 || ncol_ == 0)
      return b;
    ioSerializer.write(label + "/data_", data_, IoSerializer::ALLOW_OVERWRITE);
    return true;''','''const auto mode = IoSerializer::ALLOW_OVERWRITE;
		if (!ioSerializer.write(label + "/nrow_", nrow_, mode))
			return false;
		if (!ioSerializer.write(label + "/ncol_", ncol_, mode))
			return false;
		if (nrow_ != 0 && ncol_ != 0)
			ioSerializer.write(label + "/data_", data_, mode);
		return true;''')
r('Matrix.h','''SizeType n = nrow_ * ncol_;
    assert(data_.size() >= n);
    SizeType count = 0;
    for (SizeType i = 0; i < n; ++i)
      if (data_[i] != zval)
        ++count;
    return count;''','''assert(data_.size() >= nrow_ * ncol_);
		return (nrow_ * ncol_) - std::count(data_.begin(), data_.begin() + nrow_ * ncol_, zval);''')
r('Matrix.h','''return (nrow_ == other.nrow_ && ncol_ == other.ncol_ && data_ == other.data_);''','''if (ncol_ != other.ncol_ || nrow_ != other.nrow_)
			return false;
		return data_ == other.data_;''')
r('Matrix.h','''SizeType total = std::min(data_.size(), other.data_.size());
    for (SizeType i = 0; i < total; ++i)
      data_[i] += other.data_[i];''','''const SizeType total = (data_.size() < other.data_.size()) ? data_.size() : other.data_.size();
		SizeType i = 0;
		for (auto it = data_.begin(); i < total; ++it, ++i)
			*it += other.data_[i];''')
r('Matrix.h','''for (SizeType i = 0; i < ncol_ * nrow_; i++)
      data_[i] -= other.data_[i];''','''for (SizeType j = 0; j < ncol_; j++)
			for (SizeType i = 0; i < nrow_; i++)
				data_[i + j * nrow_] -= other.data_[i + j * nrow_];''')
r('Matrix.h','''m.data_.swap(data_);
    SizeType row = m.nrow_;
    SizeType col = m.ncol_;
    m.nrow_ = nrow_;
    m.ncol_ = ncol_;
    nrow_ = row;
    ncol_ = col;''','''std::swap(nrow_, m.nrow_);
		std::swap(ncol_, m.ncol_);
		data_.swap(m.data_);''')
r('Matrix.h','''for (SizeType i = 0; i < data_.size(); i++)
      data_[i] = val;''','''std::fill(data_.begin(), data_.end(), val);''')
r('Matrix.h','''if (nrow_ != ncol_) {
      throw RuntimeError(
          "setToIdentity called on a non-square matrix\\n");
    }
    this->setTo(0);
    for (SizeType i = 0; i < nrow_; ++i) {
      this->operator()(i, i) = 1;
    }''','''const bool square = (nrow_ == ncol_);
		if (!square)
			throw RuntimeError("setToIdentity called on a non-square matrix\\n");

		for (SizeType j = 0; j < ncol_; ++j)
			for (SizeType i = 0; i < nrow_; ++i)
				this->operator()(i, j) = (i == j) ? 1 : 0;''')
r('Matrix.h','''if (this->data_.size() > 0 && cSize != this->data_.size())
      throw RuntimeError(
          "operator+= matrices of different sizes\\n");
    if (this->data_.size() == 0)
      this->data_.resize(cSize);''','''const SizeType current = this->data_.size();
		if (current == 0) {
			this->data_.resize(cSize);
			return;
		}
		if (current != cSize)
			throw RuntimeError("operator+= matrices of different sizes\\n");''')
r('Matrix.h','''for (SizeType i = 0; i < a.rows(); i++) {
      for (SizeType j = 0; j < b.cols(); j++) {
        T sum = 0.0;
        for (SizeType k = 0; k < a.cols(); k++) {
          sum += a(i, k) * b(k, j);
        }
        m(i, j) = sum * t1;
      }
    }
    *this = m;''','''const SizeType inner = a.cols();
		for (SizeType j = 0; j < b.cols(); j++) {
			for (SizeType i = 0; i < a.rows(); i++) {
				T& sum = m(i, j);
				sum = 0.0;
				for (SizeType k = 0; k < inner; k++)
					sum += a(i, k) * b(k, j);
				sum *= t1;
			}
		}
		swap(m);''')
r('Matrix.h','''int lwork = -1;
  typename Vector<T>::Type work(2);
  psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
  lwork = static_cast<int>(work[0]);
  work.resize(lwork + 2);
  psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
  String s = "[sd]getri_ failed\\n";
  if (info != 0)
    throw RuntimeError(s.c_str());''','''const int query = -1;
	typename Vector<T>::Type work(2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), query, info);
	const int lwork = static_cast<int>(work[0]);
	work.resize(lwork + 2);
	psimag::LAPACK::GETRI(n, &(m(0, 0)), n, &(ipiv[0]), &(work[0]), lwork, info);
	if (info == 0)
		return;
	throw RuntimeError("[sd]getri_ failed\\n");''')
r('Matrix.h','''os << A(i, j);
      if (j + 1 < A.cols())
        os << ",";
    }
    os << "}";''','''if (j > 0)
				os << ",";
			os << A(i, j);
		}
		os << "}";''')
r('Matrix.h','''bool b2 = (k2 == values.size());
      if (b1) {
        if (b2) {
          values.push_back(val);
          if (values.size() > maxCharacters)
            throw RuntimeError(s.c_str());
          char chark = k + 65;
          os << " " << chark << " ";
        }
        else {
          char chark = k2 + 65;
          os << "-" << chark << " ";
        }
      }
      else {
        char chark = k + 65;
        os << " " << chark << " ";
      }''','''bool b2 = (k2 == values.size());
			if (b1 && !b2) {
				char chark = k2 + 65;
				os << "-" << chark << " ";
				continue;
			}
			if (b1) {
				values.push_back(val);
				if (values.size() > maxCharacters)
					throw RuntimeError(s.c_str());
			}
			char chark = k + 65;
			os << " " << chark << " ";''')
r('Matrix.h','''SizeType nonzero = 0;
    for (SizeType j = 0; j < m.cols(); j++) {
      const T& val = m(i, j);
      if (val != static_cast<T>(0)) {
        os << val << " ";
        nonzero++;
      }
    }
    if (nonzero > 0)
      os << "\\n";''','''bool any = false;
		for (SizeType j = 0; j < m.cols(); j++) {
			const T& val = m(i, j);
			if (val == static_cast<T>(0))
				continue;
			os << val << " ";
			any = true;
		}
		if (any)
			os << "\\n";''')
r('Matrix.h','''if (is) {
    A.resize(nrow, ncol);
    for (SizeType j = 0; j < A.rows(); j++)
      for (SizeType i = 0; i < A.cols(); i++)
        is >> A(j, i);
  }
  else {
    String str("ERROR istream& operator >> ");
    str += "(std::istream&, Matrix<T>&): read past end stream";
    throw RangeError(str);
  }
  return is;''','''if (!is)
		throw RangeError("ERROR istream& operator >> (std::istream&, Matrix<T>&): read past end stream");
	A.resize(nrow, ncol);
	for (SizeType row = 0; row < nrow; row++)
		for (SizeType col = 0; col < ncol; col++)
			is >> A(row, col);
	return is;''')
r('Matrix.h','''for (SizeType i = 0; i < n; i++)
    for (SizeType j = 0; j < n; j++) {
      if (PsimagLite::norm(A(i, j) - PsimagLite::conj(A(j, i))) > eps) {
        if (verbose) {
          std::cerr << "A(" << i << "," << j
                    << ")=" << A(i, j);
          std::cerr << " A(" << j << "," << i
                    << ")=" << A(j, i) << "\\n";
        }
        return false;
      }
    }
  return true;''','''bool ok = true;
	for (SizeType i = 0; ok && i < n; i++) {
		for (SizeType j = 0; ok && j < n; j++) {
			ok = !(PsimagLite::norm(A(i, j) - PsimagLite::conj(A(j, i))) > eps);
			if (!ok && verbose) {
				std::cerr << "A(" << i << "," << j
				          << ")=" << A(i, j);
				std::cerr << " A(" << j << "," << i
				          << ")=" << A(j, i) << "\\n";
			}
		}
	}
	return ok;''')
r('Matrix.h','''for (SizeType i = 0; i < a.rows(); i++)
    if (PsimagLite::norm(a(i, i) - static_cast<T>(1.0)) > 1e-6)
      return false;
  return true;''','''SizeType wrong = 0;
	for (SizeType i = 0; i < a.rows(); i++)
		wrong += (PsimagLite::norm(a(i, i) - static_cast<T>(1.0)) > 1e-6) ? 1 : 0;
	return (wrong == 0);''')
r('Matrix.h','''for (SizeType i = 0; i < a.rows(); i++)
    for (SizeType j = 0; j < a.cols(); j++)
      if (PsimagLite::norm(a(i, j)) > 0)
        return false;
  return true;''','''const SizeType total = a.rows() * a.cols();
	for (SizeType k = 0; k < total; k++)
		if (PsimagLite::norm(a(k / a.cols(), k % a.cols())) > 0)
			return false;
	return true;''')
r('Matrix.h','''SizeType n = O1.rows();
  Matrix<T> ret(n, n);
  if (modifier == 'C') {
    for (SizeType s = 0; s < n; s++)
      for (SizeType t = 0; t < n; t++)
        for (SizeType w = 0; w < n; w++)
          ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
  }
  else {
    for (SizeType s = 0; s < n; s++)
      for (SizeType t = 0; t < n; t++)
        for (SizeType w = 0; w < n; w++)
          ret(s, t) += O1(w, s) * O2(w, t);
  }
  return ret;''','''const SizeType n = O1.rows();
	const bool conjugated = (modifier == 'C');
	Matrix<T> ret(n, n);
	for (SizeType s = 0; s < n; s++) {
		for (SizeType t = 0; t < n; t++) {
			T sum = 0;
			for (SizeType w = 0; w < n; w++) {
				const T& left = O1(w, s);
				sum += (conjugated ? PsimagLite::conj(left) : left) * O2(w, t);
			}
			ret(s, t) = sum;
		}
	}
	return ret;''')
r('Matrix.h','''m2.resize(m.cols(), m.rows());
  for (SizeType i = 0; i < m2.rows(); i++)
    for (SizeType j = 0; j < m2.cols(); j++)
      m2(i, j) = PsimagLite::conj(m(j, i));''','''const SizeType rows = m.rows();
	const SizeType cols = m.cols();
	m2.resize(cols, rows);
	for (SizeType j = 0; j < rows; j++)
		for (SizeType i = 0; i < cols; i++)
			m2(i, j) = PsimagLite::conj(m(j, i));''')
ONCE=1
