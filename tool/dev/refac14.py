import re
R=[]
def r(f,o,n,k=0):
    """whitespace-insensitive: the k-th match in the file"""
    s=open('/repo/src/'+f).read()
    ms=list(re.finditer(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s))
    if len(ms)<=k: print('NOT FOUND',f,o[:60]); return
    m=ms[k]
    # take in the line before, so that the k-th can be told from the first
    i=m.start()
    c=s[i:m.end()]
    while s.find(c)!=i:
        i=s.rfind('\n',0,i-1); c=s[i:m.end()]
    R.append((f,c,s[i:m.start()]+n))
r('CrsMatrix.h','''return (nrow_ == op.nrow_ && ncol_ == op.ncol_ && rowptr_ == op.rowptr_ && colind_ == op.colind_''','''const bool sameShape = (op.nrow_ == nrow_ && op.ncol_ == ncol_);
		return (sameShape && rowptr_ == op.rowptr_ && colind_ == op.colind_''')
r('CrsMatrix.h','''SizeType counter = 0;
    for (SizeType i = 0; i < m.rows(); ++i) {
      setRow(i, counter);
      while (counter < nonZeros && m.getRow(counter) == i) {
        colind_[counter] = m.getColumn(counter);
        values_[counter] = m.getValue(counter);
        counter++;
      }
    }
    setRow(m.rows(), counter);''','''const SizeType nrows = m.rows();
		SizeType counter = 0;
		SizeType row = 0;
		while (row < nrows) {
			setRow(row, counter);
			for (; counter < nonZeros && m.getRow(counter) == row; ++counter) {
				values_[counter] = m.getValue(counter);
				colind_[counter] = m.getColumn(counter);
			}
			++row;
		}
		setRow(nrows, counter);''')
r('CrsMatrix.h','''if (nrow_ >= 1) {
      assert(rowptr_.size() == 1 + nrow_);
      assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
      assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
      return colind_.size();
    }
    else {
      return 0;
    };''','''if (nrow_ == 0)
			return 0;
		assert(rowptr_.size() == 1 + nrow_);
		assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
		assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
		return colind_.size();''')
r('CrsMatrix.h','''for (SizeType i = 0; i < y.size(); i++) {
      assert(i + 1 < rowptr_.size());
      for (int j = rowptr_[i]; j < rowptr_[i + 1]; j++) {
        assert(SizeType(j) < values_.size());
        assert(SizeType(j) < colind_.size());
        assert(SizeType(colind_[j]) < y.size());
        x[i] += values_[j] * y[colind_[j]];
      }
    }''','''const SizeType n = y.size();
		for (SizeType i = 0; i < n; i++) {
			assert(i + 1 < rowptr_.size());
			const int start = rowptr_[i];
			const int end = rowptr_[i + 1];
			for (int j = start; j < end; j++) {
				assert(SizeType(j) < values_.size());
				assert(SizeType(j) < colind_.size());
				assert(SizeType(colind_[j]) < y.size());
				const SizeType col = colind_[j];
				x[i] += values_[j] * y[col];
			}
		}''')
r('CrsMatrix.h','''nrow_ = row;
    ncol_ = row;
    rowptr_.resize(row + 1);
    values_.resize(row);
    colind_.resize(row);
    for (SizeType i = 0; i < row; i++) {
      values_[i] = value;
      colind_[i] = i;
      rowptr_[i] = i;
    }
    rowptr_[row] = row;''','''nrow_ = ncol_ = row;
		colind_.resize(row);
		values_.resize(row);
		rowptr_.resize(row + 1);
		for (SizeType i = 0; i <= row; i++)
			rowptr_[i] = i;
		for (SizeType i = 0; i < row; i++)
			colind_[i] = i;
		for (SizeType i = 0; i < row; i++)
			values_[i] = value;''')
r('CrsMatrix.h','''*this = c.r2;
    this->values_ *= c.r1;
    return *this;''','''const CrsMatrix& source = c.r2;
		(*this) = source;
		values_ *= c.r1;
		return *this;''')
r('CrsMatrix.h','''if (nrow_ == 0 || ncol_ == 0)
      return;
    ioSerializer.write(label + "/rowptr_", rowptr_, mode);
    assert(rowptr_.size() == nrow_ + 1);
    if (rowptr_[nrow_] == 0)
      return;
    ioSerializer.write(label + "/colind_", colind_, mode);
    ioSerializer.write(label + "/values_", values_, mode);''','''if (nrow_ > 0 && ncol_ > 0) {
			ioSerializer.write(label + "/rowptr_", rowptr_, mode);
			assert(rowptr_.size() == nrow_ + 1);
			const bool hasElements = (rowptr_[nrow_] != 0);
			if (hasElements) {
				ioSerializer.write(label + "/colind_", colind_, mode);
				ioSerializer.write(label + "/values_", values_, mode);
			}
		}''')
r('CrsMatrix.h','''if (nrow_ == 0 || ncol_ == 0) {
      rowptr_.clear();
      return;
    }
    ioSerializer.read(rowptr_, label + "/rowptr_");
    assert(rowptr_.size() == nrow_ + 1);
    if (rowptr_[nrow_] == 0)
      return;''','''const bool empty = (nrow_ == 0 || ncol_ == 0);
		if (empty)
			return rowptr_.clear();
		ioSerializer.read(rowptr_, label + "/rowptr_");
		assert(rowptr_.size() == nrow_ + 1);
		const SizeType stored = rowptr_[nrow_];
		if (stored == 0)
			return;''')
r('CrsMatrix.h','''const T1 one = 1.0;
    if (nrow_ >= m.rows())
      operatorPlus(c, *this, one, m, t1);
    else
      operatorPlus(c, m, t1, *this, one);''','''const T1 one = 1.0;
		const bool mIsLarger = (m.rows() > nrow_);
		if (mIsLarger)
			operatorPlus(c, m, t1, *this, one);
		else
			operatorPlus(c, *this, one, m, t1);''')
r('CrsMatrix.h','''for (SizeType i = 0; i < n + 1; i++)
    os << m.rowptr_[i] << " ";
  os << "\\n";
  SizeType nonzero = m.nonZeros();''','''for (SizeType i = 0; i <= n; ++i)
		os << m.rowptr_[i] << " ";
	os << "\\n";
	const SizeType nonzero = m.nonZeros();''')
r('CrsMatrix.h','''for (SizeType i = 0; i < m.rowptr_.size(); i++)
    is >> m.rowptr_[i];
  SizeType nonzero;
  is >> nonzero;
  m.colind_.resize(nonzero);
  for (SizeType i = 0; i < m.colind_.size(); i++)
    is >> m.colind_[i];
  is >> nonzero;
  m.values_.resize(nonzero);
  for (SizeType i = 0; i < m.values_.size(); i++)
    is >> m.values_[i];''','''for (auto& offset : m.rowptr_)
		is >> offset;
	SizeType ncols;
	is >> ncols;
	m.colind_.resize(ncols);
	for (auto& col : m.colind_)
		is >> col;
	SizeType nvalues;
	is >> nvalues;
	m.values_.resize(nvalues);
	for (SizeType i = 0; i < nvalues; i++)
		is >> m.values_[i];''')
r('CrsMatrix.h','''for (int k = crsMatrix.getRowPtr(i);
         k < crsMatrix.getRowPtr(i + 1);
         k++)
      m(i, crsMatrix.getCol(k)) = crsMatrix.getValue(k);''','''const int end = crsMatrix.getRowPtr(i + 1);
		int k = crsMatrix.getRowPtr(i);
		while (k < end) {
			const SizeType col = crsMatrix.getCol(k);
			m(i, col) = crsMatrix.getValue(k);
			++k;
		}''')
r('CrsMatrix.h','''const T& val = a(i, j);
      if (val == zval)
        continue;
      if (use_push) {
        crsMatrix.pushValue(val);
        crsMatrix.pushCol(j);
      }
      else {
        crsMatrix.setValues(counter, val);
        crsMatrix.setCol(counter, j);
      };
      ++counter;''','''const T& val = a(i, j);
			if (val != zval) {
				crsMatrix.pushCol(j);
				crsMatrix.pushValue(val);
				++counter;
			}''')
r('CrsMatrix.h','''SizeType ib = (is_A_fastest)
          ? permutationFull[ia + ie * nrow_A]
          : permutationFull[ie + ia * nrow_eye];
      nnz_B_row[ib] = nnz_row;''','''const SizeType index = (is_A_fastest) ? ia + ie * nrow_A : ie + ia * nrow_eye;
			nnz_B_row[permutationFull[index]] = nnz_row;''')
r('CrsMatrix.h','''SizeType ip = B_rowptr[permutationFull[ib]];
        assert(jb < permutationFull.size());
        B.setCol(ip, permutationFull[jb]);
        B.setValues(ip, bij);
        ++B_rowptr[permutationFull[ib]];''','''const SizeType destination = permutationFull[ib];
				assert(jb < permutationFull.size());
				SizeType ip = B_rowptr[destination]++;
				B.setValues(ip, bij);
				B.setCol(ip, permutationFull[jb]);''')
r('CrsMatrix.h','''const SizeType noutOrNa = (!order) ? nout : na;
  const CrsMatrix<T>& AorB = (!order) ? A : B;
  const CrsMatrix<T>& BorA = (!order) ? B : A;''','''const SizeType noutOrNa = (order) ? na : nout;
	const CrsMatrix<T>& AorB = (order) ? B : A;
	const CrsMatrix<T>& BorA = (order) ? A : B;''')
r('CrsMatrix.h','''const SizeType ind = perm[i];
    ldiv_t q = std::ldiv(ind, noutOrNa);''','''ldiv_t q;
		q.quot = perm[i] / noutOrNa;
		q.rem = perm[i] % noutOrNa;''')
r('CrsMatrix.h','''tmp = A.getValue(j) * B.getValue(k);
        if (ptr[jbk] < 0) {
          ptr[jbk] = itemp;
          temp[ptr[jbk]] = tmp;
          index[ptr[jbk]] = jbk;
          itemp++;
        }
        else {
          temp[ptr[jbk]] += tmp;
        }''','''tmp = A.getValue(j) * B.getValue(k);
				const int where = ptr[jbk];
				if (where >= 0) {
					temp[where] += tmp;
					continue;
				}
				ptr[jbk] = itemp;
				temp[itemp] = tmp;
				index[itemp] = jbk;
				itemp++;''')
r('CrsMatrix.h','''v2[i] = 0;
    for (int j = m.getRowPtr(i); j < m.getRowPtr(i + 1); j++) {
      v2[i] += m.getValue(j) * v1[m.getCol(j)];
    }''','''S sum = 0;
		for (int j = m.getRowPtr(i); j < m.getRowPtr(i + 1); j++)
			sum += m.getValue(j) * v1[m.getCol(j)];
		v2[i] = sum;''')
r('InputNg.h','''SizeType len = it->second.size();
      assert(len > 1);
      val.resize(len - 1);
      for (SizeType i = 0; i < len - 1; i++) {
        val[i] = stringToComplexOrReal<NumericType>(
            it->second[i + 1].c_str());
      }''','''const SizeType len = it->second.size();
			assert(len > 1);
			val.resize(len - 1);
			for (SizeType i = 1; i < len; i++)
				val[i - 1] = stringToComplexOrReal<NumericType>(it->second[i].c_str());''')
r('InputNg.h','''SizeType k = 2;
      for (SizeType i = 0; i < m.rows(); i++)
        for (SizeType j = 0; j < m.cols(); j++)
          m(i, j) = atof(it->second[k++].c_str());''','''for (SizeType i = 0; i < nrow; i++)
				for (SizeType j = 0; j < ncol; j++)
					m(i, j) = atof(it->second[2 + i * ncol + j].c_str());''')
r('InputNg.h','''if (it->second.size() < 2 || atoi(it->second[0].c_str()) <= 0 || atoi(it->second[1].c_str()) <= 0) {
        String s(__FILE__);
        s += " reading a matrix: \\n";
        throw RuntimeError(s.c_str());
      }''','''const bool ok = (it->second.size() >= 2 && atoi(it->second[0].c_str()) > 0 && atoi(it->second[1].c_str()) > 0);
			if (!ok)
				throw RuntimeError(String(__FILE__) + " reading a matrix: \\n");''')
r('InputNg.h','''if (it2 != labelsForRemoval_.end() || forceRemoval) {
        mymap.erase(it);
        if (it2 != labelsForRemoval_.end())
          labelsForRemoval_.erase(it2);
      }''','''const bool listed = (it2 != labelsForRemoval_.end());
			if (!listed && !forceRemoval)
				return;
			mymap.erase(it);
			if (listed)
				labelsForRemoval_.erase(it2);''')
r('InputNg.h','''if (label.at(len - 1) == '=')
        len--;
      return label.substr(0, len);''','''const bool hasEqual = (label.at(len - 1) == '=');
			return label.substr(0, (hasEqual) ? len - 1 : len);''')
r('InputNg.h','''for (typename SomeMapType::iterator it = mymap.begin();
           it != mymap.end();
           ++it) {
        String root2 = findRootLabel(it->first);
        if (label == root2) {
          return it;
        }
      }
      return mymap.end();''','''typename SomeMapType::iterator it = mymap.begin();
			while (it != mymap.end() && findRootLabel(it->first) != label)
				++it;
			return it;''')
r('InputNg.h','''char c = s[i];
        bool b1 = (c < 48 || c > 57);
        bool b2 = (c != '.' && c != '-' && c != '+' && c != 'e' && c != 'E');
        if (b1 && b2) {''','''const char c = s[i];
				const bool isDigit = (c >= '0' && c <= '9');
				const bool isOther = (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E');
				if (!isDigit && !isOther) {''')
r('InputNg.h','''const SizeType l = s.length();
      String buffer;
      bool flag = false;
      for (SizeType i = 0; i < l; ++i) {
        const SizeType j = l - i - 1;
        if (s[j] == '.') {
          flag = true;
          break;
        }
        buffer += s[j];
      }
      if (!flag)
        return "";
      String buffer2 = buffer;
      const SizeType l2 = buffer.length();
      for (SizeType i = 0; i < l2; ++i) {
        const SizeType j = l2 - i - 1;
        buffer2[j] = buffer[i];
      }
      return buffer2;''','''const auto dot = s.rfind('.');
			if (dot == String::npos)
				return "";
			return s.substr(dot + 1);''')
r('InputNg.h','''for (SizeType i = 0; i < len; i++) {
      if (label.at(i) == '@')
        break;
      buffer += label.at(i);''','''for (SizeType i = 0; i < len && label.at(i) != '@'; i++) {
			buffer += label.at(i);''')
ONCE=1
