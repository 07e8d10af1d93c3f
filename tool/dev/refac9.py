import re
R=[]
def r(f,o,n):
    """whitespace-insensitive: the first match in the file"""
    s=open('/repo/src/'+f).read()
    m=re.search(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s)
    if not m: print('NOT FOUND',f,o[:60]); return
    c=s[m.start():m.end()]
    if any(x==f and y==c for x,y,z in R): print('twice',f,o[:60])
    R.append((f,c,n))
r('Sort.h','''for (SizeType i = 0; i < n; i++) {
      p[i].first = xread[i];
      p[i].second = i;
    }''','''for (SizeType i = 0; i < n; ++i)
			p[i] = PairType(xread[i], i);''')
r('Sort.h','''return (x1.first < x2.first);''','''const bool isLess = x1.first < x2.first;
			return isLess;''')
r('Sort.h','''SizeType n = x.size();
    if (n == 0)
      return;
    if (smallSize != 0)
      n = smallSize;''','''if (x.size() == 0)
			return;
		const SizeType n = (smallSize == 0) ? x.size() : smallSize;''')
r('LoadBalancerWeights.h','''for (SizeType iii = 0; iii < ntasks; ++iii) {
      SizeType ii = ntasks - 1 - iii; // because sort is ascending
      SizeType thread = findThreadWithLightestWork(workLoad);
      assert(thread < taskNumber_.size());
      taskNumber_[thread].push_back(iperm[ii]);
      assert(thread < workLoad.size());
      workLoad[thread] += weights[iperm[ii]];
    }''','''for (SizeType ii = ntasks; ii-- > 0;) {
			const SizeType task = iperm[ii];
			const SizeType thread = findThreadWithLightestWork(workLoad);
			assert(thread < taskNumber_.size() && thread < workLoad.size());
			workLoad[thread] += weights[task];
			taskNumber_[thread].push_back(task);
		}''')
r('LoadBalancerWeights.h','''return std::min_element(workLoad.begin(), workLoad.end()) - workLoad.begin();''','''return std::distance(workLoad.begin(), std::min_element(workLoad.begin(), workLoad.end()));''')
r('LoadBalancerWeights.h','''if (ntasks < nthreads && ntasks > 0)
      nthreads = ntasks;''','''if (ntasks > 0)
			nthreads = std::min(ntasks, nthreads);''')
r('LoadBalancerDefault.h','''if ((ntasks % nthreads) != 0)
      ++blockSize_;''','''const SizeType rest = ntasks % nthreads;
		if (rest > 0)
			blockSize_ += 1;''')
r('LoadBalancerMpi.h',''': blockSize_(ntasks / nthreads)
  {''',''': blockSize_(0)
	{
		blockSize_ = ntasks / nthreads;
''')
r('Options.h','''if (mode_ == PERMISSIVE)
          std::cerr << " *** WARNING **: " << s;
        if (mode_ == STRICT)
          throw RuntimeError(s.c_str());''','''switch (mode_) {
				case PERMISSIVE:
					std::cerr << " *** WARNING **: " << s;
					break;
				case STRICT:
					throw RuntimeError(s.c_str());
				default:
					break;
				}''')
r('Options.h','''bool b = (find(optsThatAreSet_.begin(),
                     optsThatAreSet_.end(),
                     thisOption)
                == optsThatAreSet_.end());
      return (!b);''','''for (const String& opt : optsThatAreSet_)
				if (opt == thisOption)
					return true;
			return false;''')
r('Options.h','''bool b = (find(registeredOptions_.begin(),
                       registeredOptions_.end(),
                       optsThatAreSet[i])
                  == registeredOptions_.end());
        if (!b)
          continue;''','''const auto it = std::find(registeredOptions_.begin(), registeredOptions_.end(), optsThatAreSet[i]);
				if (it != registeredOptions_.end())
					continue;''')
r('OneOperatorSpec.h','''SizeType i = 0;
    for (; i < label.length(); ++i) {
      if (label[i] == '?')
        break;
    }
    if (i == label.length())
      return;''','''const SizeType i = label.find('?');
		if (i == String::npos)
			return;''')
r('OneOperatorSpec.h','''bool b1 = (firstIndex < 0 && lastIndex >= 0);
    bool b2 = (firstIndex >= 0 && lastIndex < 0);
    if (b1 || b2)''','''if ((firstIndex < 0) != (lastIndex < 0))''')
r('OneOperatorSpec.h','''if (name[i] == cBegin) {
        firstIndex = i;
        continue;
      }
      if (name[i] == cEnd) {
        lastIndex = i;
        continue;
      }''','''const char c = name[i];
			if (c == cBegin)
				firstIndex = i;
			else if (c == cEnd)
				lastIndex = i;''')
r('OneOperatorSpec.h','''String str = name.substr(0, firstIndex);
    str += name.substr(lastIndex + 1, name.length() - lastIndex);''','''const String str = name.substr(0, firstIndex) + name.substr(lastIndex + 1, name.length() - lastIndex);''')
r('OneOperatorSpec.h','''return !s.empty() && std::find_if(s.begin(), s.end(), [](char c) {
                           return !std::isdigit(c);
                         })
        == s.end();''','''if (s.empty())
			return false;
		return std::all_of(s.begin(), s.end(), [](char c) { return std::isdigit(c); });''')
r('PredicateAnd.h','''const SizeType n = tokens.size();
    for (SizeType i = 0; i < n; ++i)
      vPredicateSimple_.push_back(PredicateSimple(tokens[i]));''','''vPredicateSimple_.reserve(tokens.size());
		for (const String& token : tokens)
			vPredicateSimple_.emplace_back(token);''')
r('PredicateAnd.h','''VectorStringType names { name };
    typename Vector<T>::Type values { val };
    SizeType n = vPredicateSimple_.size();
    for (SizeType i = 0; i < n; ++i)
      if (!vPredicateSimple_[i].isTrue(names, values))
        return false;
    return true;''','''VectorStringType names { name };
		typename Vector<T>::Type values { val };
		return std::all_of(vPredicateSimple_.begin(), vPredicateSimple_.end(), [&](PredicateSimple& p) { return p.isTrue(names, values); });''')
r('PredicateAnd.h','''VectorStringType names { name1, name2 };
    typename Vector<T>::Type values { val1, val2 };
    SizeType n = vPredicateSimple_.size();
    for (SizeType i = 0; i < n; ++i)
      if (!vPredicateSimple_[i].isTrue(names, values))
        return false;
    return true;''','''VectorStringType names;
		names.push_back(name1);
		names.push_back(name2);
		typename Vector<T>::Type values { val1, val2 };
		bool allTrue = true;
		for (SizeType i = 0; allTrue && i < vPredicateSimple_.size(); ++i)
			allTrue = vPredicateSimple_[i].isTrue(names, values);
		return allTrue;''')
r('SparseRow.h','''if (cols_[i] == prevCol) {
        value += values_[iperm[i]];
        continue;
      }
      matrix.pushCol(prevCol);
      matrix.pushValue(value);
      counter++;
      value = values_[iperm[i]];
      prevCol = cols_[i];''','''if (cols_[i] != prevCol) {
				matrix.pushCol(prevCol);
				matrix.pushValue(value);
				++counter;
				prevCol = cols_[i];
				value = values_[iperm[i]];
			} else {
				value += values_[iperm[i]];
			}''')
r('SparseRow.h','''matrix.pushCol(prevCol);
    matrix.pushValue(value);
    counter++;
    return counter;''','''matrix.pushCol(prevCol);
		matrix.pushValue(value);
		return counter + 1;''')
r('SparseRowCached.h','''SizeType cacheSize = cols_.size();
    if (counter_ >= cacheSize) {
      cacheSize *= 2;
      cols_.resize(cacheSize);
      values_.resize(cacheSize);
    }
    cols_[counter_] = col;
    values_[counter_] = value;
    counter_++;''','''if (counter_ >= cols_.size()) {
			const SizeType newSize = 2 * cols_.size();
			values_.resize(newSize);
			cols_.resize(newSize);
		}
		values_[counter_] = value;
		cols_[counter_++] = col;''')
r('SparseVector.h','''for (SizeType i = 0; i < v.size(); i++) {
      if (v[i] != zerovalue) {
        values_.push_back(v[i]);
        indices_.push_back(i);
      }
    }''','''for (SizeType i = 0; i < v.size(); ++i) {
			if (v[i] == zerovalue)
				continue;
			indices_.push_back(i);
			values_.push_back(v[i]);
		}''')
r('SparseVector.h','''if (test) {
      PairType firstLast = findFirstLast();
      if (i0 > firstLast.first || i0 + total < firstLast.second)
        throw RuntimeError("SparseVector::toChunk(...)"
                           " check failed\\n");
    }''','''if (test && !chunkIsInside(i0, total))
			throw RuntimeError("SparseVector::toChunk(...)"
			                   " check failed\\n");''')
r('SparseVector.h','''SizeType indices() const { return indices_.size(); }''','''bool chunkIsInside(SizeType i0, SizeType total) const
	{
		const PairType firstLast = findFirstLast();
		return (i0 <= firstLast.first && i0 + total >= firstLast.second);
	}

	SizeType indices() const { return indices_.size(); }''')
r('SparseVector.h','''dest.resize(total);
    for (SizeType i = 0; i < total; i++)
      dest[i] = 0;
    for (SizeType i = 0; i < indices_.size(); i++)
      dest[indices_[i] - offset] = values_[i];
    return part;''','''dest.resize(total);
		std::fill(dest.begin(), dest.end(), 0);
		SizeType k = 0;
		for (SizeType ind : indices_)
			dest[ind - offset] = values_[k++];
		return part;''')
r('Fermi.h','''if (x > 50)
    return 0;
  if (x < -50)
    return 1;
  if (x < 0)
    return 1.0 / (1.0 + std::exp(x));
  return std::exp(-x) / (1.0 + std::exp(-x));''','''if (x > 50)
		return 0;
	else if (x < -50)
		return 1;
	else if (x < 0)
		return 1.0 / (1.0 + std::exp(x));
	const FieldType e = std::exp(-x);
	return e / (1.0 + e);''')
r('Fermi.h','''FieldType res;
  if (x > 20)
    return -x;
  if (x < -20)
    return 0;
  res = -std::log(1.0 + std::exp(x));
  return res;''','''if (x > 20)
		return -x;
	return (x < -20) ? static_cast<FieldType>(0) : static_cast<FieldType>(-std::log(1.0 + std::exp(x)));''')
r('CrsMatrix.h','''for (SizeType i = 0; i < rows.size(); i++) {
      for (; nextRow <= rows[i]; ++nextRow)
        rowptr_[nextRow] = i;
      colind_.push_back(cols[iperm[i]]);
      values_.push_back(vals[iperm[i]]);
    }''','''const SizeType nnz = rows.size();
		for (SizeType i = 0; i < nnz; ++i) {
			while (nextRow <= rows[i])
				rowptr_[nextRow++] = i;
			const SizeType k = iperm[i];
			colind_.push_back(cols[k]);
			values_.push_back(vals[k]);
		}''')
r('CrsMatrix.h','''SizeType nrow = this->nrow_;
    this->nrow_ = other.nrow_;
    other.nrow_ = nrow;
    SizeType ncol = this->ncol_;
    this->ncol_ = other.ncol_;
    other.ncol_ = ncol;''','''std::swap(nrow_, other.nrow_);
		std::swap(ncol_, other.ncol_);''')
r('CrsMatrix.h','''for (SizeType i = 0; i < row; i++) {
      values_[i] = value;
      colind_[i] = i;
      rowptr_[i] = i;
    }
    rowptr_[row] = row;''','''std::fill(values_.begin(), values_.end(), value);
		for (SizeType i = 0; i < row; ++i)
			colind_[i] = i;
		for (SizeType i = 0; i <= row; ++i)
			rowptr_[i] = i;''')
r('CrsMatrix.h','''SizeType n = values_.size();
    for (SizeType i = 0; i < n; ++i)
      values_[i] = PsimagLite::conj(values_[i]);''','''for (T& v : values_)
			v = PsimagLite::conj(v);''')
r('CrsMatrix.h','''for (SizeType i = 0; i < y.size(); i++) {
      assert(i + 1 < rowptr_.size());
      for (int j = rowptr_[i]; j < rowptr_[i + 1]; j++) {
        assert(SizeType(j) < values_.size());
        assert(SizeType(j) < colind_.size());
        assert(SizeType(colind_[j]) < y.size());
        x[i] += values_[j] * y[colind_[j]];
      }
    }''','''const SizeType n = y.size();
		for (SizeType i = 0; i < n; ++i) {
			assert(i + 1 < rowptr_.size());
			const int start = rowptr_[i];
			const int end = rowptr_[i + 1];
			for (int j = start; j < end; ++j) {
				const SizeType col = colind_[j];
				assert(col < y.size());
				x[i] += values_[j] * y[col];
			}
		}''')
r('CrsMatrix.h','''if (nrow_ >= 1) {
      assert(rowptr_.size() == 1 + nrow_);
      assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
      assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
      return colind_.size();
    }
    else {
      return 0;
    };''','''if (nrow_ == 0)
			return 0;
		assert(rowptr_.size() == 1 + nrow_);
		assert(static_cast<SizeType>(rowptr_[nrow_]) == colind_.size());
		assert(static_cast<SizeType>(rowptr_[nrow_]) == values_.size());
		return colind_.size();''')
r('CrsMatrix.h','''setRow(i, counter);
      while (counter < nonZeros && m.getRow(counter) == i) {
        colind_[counter] = m.getColumn(counter);
        values_[counter] = m.getValue(counter);
        counter++;
      }''','''setRow(i, counter);
			for (; counter < nonZeros && m.getRow(counter) == i; ++counter) {
				values_[counter] = m.getValue(counter);
				colind_[counter] = m.getColumn(counter);
			}''')
r('CrsMatrix.h','''ioSerializer.read(nrow_, label + "/nrow_");
    ioSerializer.read(ncol_, label + "/ncol_");
    colind_.clear();
    values_.clear();
    if (nrow_ == 0 || ncol_ == 0) {
      rowptr_.clear();
      return;
    }''','''const String prefix = label + "/";
		values_.clear();
		colind_.clear();
		ioSerializer.read(nrow_, prefix + "nrow_");
		ioSerializer.read(ncol_, prefix + "ncol_");
		const bool isEmpty = (nrow_ == 0 || ncol_ == 0);
		if (isEmpty) {
			rowptr_.clear();
			return;
		}''')
r('CrsMatrix.h','''if (nrow_ >= m.rows())
      operatorPlus(c, *this, one, m, t1);
    else
      operatorPlus(c, m, t1, *this, one);''','''if (nrow_ < m.rows()) {
			operatorPlus(c, m, t1, *this, one);
			return;
		}
		operatorPlus(c, *this, one, m, t1);''')
r('MersenneTwister.cpp','''int news = random();
  for (int i = 1; i < rank; ++i) {
    news = random();
  }
  seed(news);''','''int news = random();
	int i = 1;
	while (i < rank) {
		news = random();
		++i;
	}
	seed(news);''')
r('MersenneTwister.cpp','''y ^= (y >> 11);
  y ^= (y << 07) & 2636928640;
  y ^= (y << 15) & 4022730752;
  y ^= (y >> 18);
  index_ = (index_ + 1) % N_;
  return y;''','''index_ = (index_ + 1) % N_;
	return temper(y);''')
r('MersenneTwister.cpp','''unsigned MersenneTwister::random()''','''static unsigned temper(unsigned y)
{
	y = y ^ (y >> 11);
	y = y ^ ((y << 7) & 2636928640);
	y = y ^ ((y << 15) & 4022730752);
	return y ^ (y >> 18);
}

unsigned MersenneTwister::random()''')
r('SumDecomposition.h','''bool b1 = (sel_ == SEL_ALL);
      bool b2 = (sel_ == SEL_INDEX && selection_ == size_);
      if (b1 || b2)
        data_.push_back(data);
      size_++;
      return;''','''if (isSelected())
				data_.push_back(data);
			++size_;
			return;''')
r('SumDecomposition.h','''void reentrant1_(VectorSizeType& data, SizeType n, SizeType x)
  {''','''bool isSelected() const
	{
		if (sel_ == SEL_ALL)
			return true;
		return (sel_ == SEL_INDEX && selection_ == size_);
	}

	void reentrant1_(VectorSizeType& data, SizeType n, SizeType x)
	{''')
r('SumDecomposition.h','''if (i < data_.size())
      return data_[i];
    String msg("SumDecomposition::operator():");
    throw RuntimeError(msg + " requested index is too big\\n");''','''if (i >= data_.size())
			throw RuntimeError("SumDecomposition::operator(): requested index is too big\\n");
		return data_[i];''')
r('Permutations.h','''int saved = -1;
    SizeType tot = data_.size() - 1;
    for (SizeType i = 0; i < tot; i++) {
      if (data_[i] < data_[i + 1])
        saved = i;
    }
    return saved;''','''for (int i = static_cast<int>(data_.size()) - 2; i >= 0; --i)
			if (data_[i] < data_[i + 1])
				return i;
		return -1;''')
r('Permutations.h','''for (SizeType i = 0; i < data_.size(); i++)
      data_[i] = orig[i];''','''std::copy(orig.begin(), orig.end(), data_.begin());''')
r('Permutations.h','''typename Vector<SizeType>::Type tmp = data_;
    for (SizeType i = k + 1; i < data_.size(); i++)
      data_[c--] = tmp[i];
    return true;''','''std::reverse(data_.begin() + k + 1, data_.end());
		return true;''')
r('PackIndices.h','''ldiv_t q = std::ldiv(ind, n_);
    y = q.quot;
    x = q.rem;''','''x = ind % n_;
		y = ind / n_;''')
r('BitManip.h','''for (; v; c++)
      v &= v - 1; // clear the least significant bit set
    return c;''','''while (v) {
			v = v & (v - 1);
			c++;
		}
		return c;''')
r('GemmR.h','''return ((m <= nb_) && (n <= nb_));''','''return std::max(m, n) <= nb_;''')
r('GemmR.h','''bool const is_notransA = (!is_transA) && (!is_conjA);''','''bool const is_notransA = !(is_transA || is_conjA);''')
r('GemmR.h','''const SizeType j_block = (ij_block - i_block) / nblocks_i;''','''const SizeType j_block = ij_block / nblocks_i;''')
r('Parallelizer2Pthread.h','''LoadBalancerType* loadBalancer = new LoadBalancerType(end - start, nthreads_);
    parallelFor(start, end, lambda, *loadBalancer);
    delete loadBalancer;
    loadBalancer = 0;''','''const LoadBalancerType loadBalancer(end - start, nthreads_);
		parallelFor(start, end, lambda, loadBalancer);''')
r('InterNodeMpi.h','''SizeType taskNumber = loadBalancer.taskNumber(mpiRank_, p);
      if (taskNumber + start >= end)
        break;
      lambda(taskNumber + start, mpiRank_);''','''const SizeType task = start + loadBalancer.taskNumber(mpiRank_, p);
			if (task >= end)
				break;
			lambda(task, mpiRank_);''')
r('NoPthreadsNg.h','''LoadBalancerType* loadBalancer = new LoadBalancerType(pfh.tasks(), 1);
    loopCreate(pfh, *loadBalancer);
    delete loadBalancer;
    loadBalancer = 0;''','''LoadBalancerType loadBalancer(pfh.tasks(), 1);
		loopCreate(pfh, loadBalancer);''')
r('Stack.h','''for (int i = tmpVec.size() - 1; i >= 0; i--) {
    x.push(tmpVec[i]);
  }''','''for (auto it = tmpVec.rbegin(); it != tmpVec.rend(); ++it)
		x.push(*it);''')
r('Stack.h','''typename StackType::value_type x = st2.top();
    os << x << "\\n";
    st2.pop();''','''os << st2.top() << "\\n";
		st2.pop();''')
r('ApplicationInfo.h','''int ret = gethostname(name, len);
    String retString;
    if (ret != 0) {
      retString = "UNKNOWN";
    }
    else {
      retString = name;
    }
    delete[] name;
    return retString;''','''const int ret = gethostname(name, len);
		const String retString = (ret == 0) ? name : "UNKNOWN";
		delete[] name;
		return retString;''')
r('ApplicationInfo.h','''if (!isFinalized_) {
      serializer.createGroup(root);
      serializer.write(root + "/Name", name_);
      serializer.write(root + "/RunId", runId_);
      serializer.write(root + "/UnixTimeStart",
                       unixTime(false));
    }
    else {
      serializer.write(root + "/UnixTimeEnd",
                       unixTime(false));
    }''','''if (isFinalized_) {
			serializer.write(root + "/UnixTimeEnd", unixTime());
			return;
		}
		serializer.createGroup(root);
		serializer.write(root + "/Name", name_);
		serializer.write(root + "/RunId", runId_);
		serializer.write(root + "/UnixTimeStart", unixTime());''')
r('ApplicationInfo.h','''return (arg) ? tv.tv_usec : tv.tv_sec;''','''if (!arg)
			return tv.tv_sec;
		return tv.tv_usec;''')
r('PredicateAwesome.h','''if (pred_ == "")
      return false;
    SizeType n = predicateAnd_.size();
    for (SizeType i = 0; i < n; ++i)
      if (predicateAnd_[i].isTrue(name, val))
        return true;
    return false;''','''if (pred_.empty())
			return false;
		for (PredicateAnd& p : predicateAnd_)
			if (p.isTrue(name, val))
				return true;
		return false;''')
r('PredicateAwesome.h','''if (tokens[i].length() > 0 && tokens[i][0] == '@') {
        if (!spec)
          throw RuntimeError(
              String("PredicateAwesome:: with "
                     "default spec")
              + " cannot handle special options\\n");
        spec->operator()(tokens[i]);
        continue;
      }
      predicateAnd_.push_back(
          PredicateAnd(tokens[i], andSeparator));''','''const String& token = tokens[i];
			const bool special = (!token.empty() && token[0] == '@');
			if (!special) {
				predicateAnd_.push_back(PredicateAnd(token, andSeparator));
				continue;
			}
			if (spec == nullptr)
				throw RuntimeError("PredicateAwesome:: with default spec cannot handle special options\\n");
			(*spec)(token);''')
r('RedirectOutput.hh','''if (cout_buffer_ == 0) {
      return;
    }
    cout_stream_.close();
    std::cout.rdbuf(cout_buffer_);''','''if (cout_buffer_ != nullptr) {
			cout_stream_.close();
			std::cout.rdbuf(cout_buffer_);
		}''')
r('RedirectOutput.hh','''if (!cout_stream_ || cout_stream_.bad()
        || !cout_stream_.good()) {
      PsimagLite::String str(app_name_);
      str += ": Could not redirect std::cout to " + label + "\\n";
      err(str);
    }''','''if (!cout_stream_.good())
			err(app_name_ + ": Could not redirect std::cout to " + label + "\\n");''')
r('RungeKutta.h','''VectorType myresult(findSizeOf(yi));
      for (SizeType j = 0; j < myresult.size(); j++)
        myresult[j] = findValueOf(yi, j);
      result.push_back(myresult);''','''const SizeType total = findSizeOf(yi);
			VectorType myresult(total);
			for (SizeType j = 0; j < total; ++j)
				myresult[j] = findValueOf(yi, j);
			result.push_back(std::move(myresult));''')
r('MpiYes.h','''SizeType blockSize = static_cast<SizeType>(v.size() / nprocs);
    if (v.size() % nprocs != 0)
      blockSize++;''','''const SizeType total = v.size();
		SizeType blockSize = total / nprocs;
		if (total % nprocs > 0)
			++blockSize;''')
r('MpiYes.h','''int errorCode = (mpiComm == 0)
        ? MPI_SUCCESS
        : MPI_Reduce(&(v[0]), &(w[0]), v.size(), datatype, op, root, mpiComm);''','''int errorCode = MPI_SUCCESS;
		if (mpiComm != 0)
			errorCode = MPI_Reduce(&(v[0]), &(w[0]), v.size(), datatype, op, root, mpiComm);''')
