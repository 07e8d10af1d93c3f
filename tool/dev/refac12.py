import re
R=[]
def r(f,o,n):
    """whitespace-insensitive: the first match in the file"""
    s=open('/repo/src/'+f).read()
    m=re.search(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s)
    if not m: print('NOT FOUND',f,o[:60]); return
    c=s[m.start():m.end()]
    if any(x==f and y==c for x,y,z in R): print('twice',f,o[:60])
    R.append((f,c,n))
r('AST/AdditionalFunctions.h','''ValueType result = (y == 0) ? x : x % y;
    return result;''','''if (y == 0)
			return x;
		return x % y;''')
r('AST/AdditionalFunctions.h','''SizeType b = static_cast<SizeType>(PsimagLite::norm(v[0]));
    return (b) ? v[1] : v[2];''','''const SizeType condition = static_cast<SizeType>(PsimagLite::norm(v[0]));
		if (condition == 0)
			return v[2];
		return v[1];''')
r('AST/ExpressionForAST.h','''for (SizeType i = 0; i < effectiveSize; i++) {
      PsimagLite::String cStr = vecStr[i];''','''bool done = false;
		for (SizeType i = 0; i < effectiveSize && !done; i++) {
			const PsimagLite::String& cStr = vecStr[i];''')
r('AST/ExpressionForAST.h','''if (sumOfA == 0)
        break;''','''done = (sumOfA == 0);''')
r('AST/ExpressionForAST.h','''for (SizeType j = k + 1; j < k + a + 1; j++) {
        if (j >= vecTree_.size())
          continue;
        vecTree_[i]->setDescendants(*vecTree_[j]);
      }''','''const SizeType last = std::min(k + a + 1, static_cast<SizeType>(vecTree_.size()));
			for (SizeType j = k + 1; j < last; ++j)
				vecTree_[i]->setDescendants(*vecTree_[j]);''')
r('AST/ExpressionForAST.h','''for (SizeType i = 0; i < vecTree_.size(); i++)
      delete vecTree_[i];''','''for (auto* tree : vecTree_)
			delete tree;''')
r('SparseRow.h','''if (cols_.size() == 0)
      return 0;
    Sort<ColumnsType> s;''','''const SizeType n = cols_.size();
		if (n == 0)
			return 0;
		Sort<ColumnsType> s;''')
r('SparseRow.h','''if (cols_[i] == prevCol) {
        value += values_[iperm[i]];
        continue;
      }
      matrix.pushCol(prevCol);
      matrix.pushValue(value);
      counter++;
      value = values_[iperm[i]];
      prevCol = cols_[i];''','''const ValueType& v = values_[iperm[i]];
			if (cols_[i] != prevCol) {
				matrix.pushCol(prevCol);
				matrix.pushValue(value);
				++counter;
				prevCol = cols_[i];
				value = v;
			} else {
				value += v;
			}''')
r('SparseRowCached.h','''SizeType cacheSize = cols_.size();
    if (counter_ >= cacheSize) {
      cacheSize *= 2;
      cols_.resize(cacheSize);
      values_.resize(cacheSize);
    }
    cols_[counter_] = col;
    values_[counter_] = value;
    counter_++;''','''const SizeType cacheSize = cols_.size();
		if (cacheSize <= counter_) {
			cols_.resize(2 * cacheSize);
			values_.resize(2 * cacheSize);
		}
		values_[counter_] = value;
		cols_[counter_++] = col;''')
r('SparseRowCached.h','''ValueType sum = 0;
    for (SizeType i = 0; i < counter_; i++)
      sum += values_[i] * y[cols_[i]];
    counter_ = 0;
    return sum;''','''const SizeType n = counter_;
		counter_ = 0;
		ValueType sum = 0;
		for (SizeType i = 0; i < n; ++i)
			sum += values_[i] * y[cols_[i]];
		return sum;''')
r('SparseRowCached.h','''matrix.pushCol(prevCol);
    matrix.pushValue(value);
    counter++;
    counter_ = 0;
    return counter;''','''matrix.pushCol(prevCol);
		matrix.pushValue(value);
		counter_ = 0;
		return counter + 1;''')
r('Geometry/LongChain.h','''isPeriodic_ = (x > 0) ? true : false;''','''isPeriodic_ = (x > 0);''')
r('Geometry/LongChain.h','''const SizeType imin = (i < j) ? i : j;
    const SizeType imax = (i < j) ? j : i;
    return (isPeriodic_ && imax - imin != distance_) ? imax : imin;''','''const SizeType imin = std::min(i, j);
		const SizeType imax = std::max(i, j);
		const bool wraps = isPeriodic_ && (imin + distance_ != imax);
		return wraps ? imax : imin;''')
r('Geometry/LongChain.h','''return (isPeriodic_) ? linSize_ : linSize_ - distance_;''','''const SizeType missing = (isPeriodic_) ? 0 : distance_;
		return linSize_ - missing;''')
r('Geometry/LongChain.h','''bool b = (imax - imin == distance_);
    if (!isPeriodic_)
      return b;
    bool b2 = (imax - imin == linSize_ - distance_);
    return (b || b2);''','''const SizeType delta = imax - imin;
		if (delta == distance_)
			return true;
		return isPeriodic_ && (delta == linSize_ - distance_);''')
r('Geometry/LongChain.h','''SizeType emin2 = smax + 1;
    if (i <= smax) {
      SizeType iPlus = i + distance_;
      return (iPlus < linSize_ && iPlus >= emin2);
    }
    return (i >= distance_ && (i - distance_) < emin);''','''if (i > smax)
			return (i >= distance_ && (i - distance_) < emin);
		const SizeType iPlus = i + distance_;
		return (iPlus > smax && iPlus < linSize_);''')
r('Geometry/LongChain.h','''site += amount;
    while (site >= linSize_)
      site -= linSize_;
    return site;''','''SizeType result = site + amount;
		while (linSize_ <= result)
			result -= linSize_;
		return result;''')
r('Geometry/GeometryDirection.h','''SizeType n = (aux.idof == GENERAL) ? 0 : getVectorSize();
    if (aux.idof == GENERAL) {
      geometryBase_->set(rawHoppings_, aux.orbitals);
      return;
    }''','''if (aux.idof == GENERAL) {
			geometryBase_->set(rawHoppings_, aux.orbitals);
			return;
		}

		SizeType n = getVectorSize();''')
r('Geometry/GeometryDirection.h','''if (n == 0)
        n = 1;''','''n = std::max(n, static_cast<SizeType>(1));''')
r('Geometry/GeometryDirection.h','''if (aux.orbitals != m.rows() || aux.orbitals != m.cols())
          throw''','''const bool isSquare = (aux.orbitals == m.rows() && aux.orbitals == m.cols());
				if (!isSquare)
					throw''')
r('Geometry/GeometryDirection.h','''ComplexOrRealType tmp = (b) ? dataMatrices_[h](edof1, edof2)
                                : dataMatrices_[h](edof2, edof1);
    int signChange = geometryBase_->signChange(i, j);
    return tmp * static_cast<RealType>(signChange);''','''const MatrixType& m = dataMatrices_[h];
		const RealType signChange = geometryBase_->signChange(i, j);
		return (b) ? m(edof1, edof2) * signChange : m(edof2, edof1) * signChange;''')
r('Geometry/GeometryDirection.h','''SizeType h = (constantValues()) ? 0 : geometryBase_->handle(i, j);''','''SizeType h = 0;
		if (!constantValues())
			h = geometryBase_->handle(i, j);''')
r('Geometry/GeometryDirection.h','''bool isMatrix = (gd.aux_.orbitals > 1 || gd.aux_.idof == SPECIFIC);
    if (!isMatrix) {''','''if (gd.aux_.orbitals <= 1 && gd.aux_.idof != SPECIFIC) {''')
r('Geometry/GeometryDirection.h','''return (aux_.constantValues)
        ? 1
        : geometryBase_->getVectorSize(aux_.dirId);''','''if (!aux_.constantValues)
			return geometryBase_->getVectorSize(aux_.dirId);
		return 1;''')
r('Geometry/GeometryBase.h','''bool b = (imax - imin == 1);
    if (!periodic)
      return b;
    bool b2 = (imax - imin == period);
    return (b || b2);''','''const SizeType d = imax - imin;
		return (d == 1) || (periodic && d == period);''')
r('Geometry/GeometryBase.h','''return edof1 + i1 * edofTotal;''','''const int base = i1 * edofTotal;
		return base + edof1;''')
r('Io/IoSimple.h','''if (filename_ == "OSTREAM" || !fout_)
        return;
      fout_->close();
      delete fout_;''','''const bool owned = (filename_ != "OSTREAM");
			if (owned && fout_) {
				fout_->close();
				delete fout_;
			}''')
r('Io/IoSimple.h','''if (rank_ != 0)
        return;
      (*fout_) << s << "\\n";''','''if (rank_ == 0)
				(*fout_) << s << "\\n";''')
r('Io/IoSimple.h','''if (io.rank_ != 0)
        return io;
      (*(io.fout_)) << t;
      return io;''','''if (io.rank_ == 0)
				*io.fout_ << t;
			return io;''')
r('Io/IoSimple.h','''if (!fout_)
        return x;
      fout_->precision(x);
      return x;''','''if (fout_)
				fout_->precision(x);
			return x;''')
r('Io/IoSimple.h','''for (int i = 0; i < xsize; i++) {
        typename X::value_type tmp;
        fin_ >> tmp;
        x[i] = tmp;
      }''','''for (SizeType i = 0; i < x.size(); ++i) {
				typename X::value_type tmp;
				fin_ >> tmp;
				x[i] = tmp;
			}''')
r('Io/IoSimple.h','''if (temp.substr(0, s.size()) == s) {
          foundOnce = true;
          IstringStream temp2(
              temp.substr(s.size(), temp.size()));
          temp2 >> x;
          if (level >= 0 && counter == LongSizeType(level)) {
            found = true;
            break;
          }
          counter++;
        }''','''if (temp.substr(0, s.size()) != s)
					continue;
				foundOnce = true;
				IstringStream temp2(temp.substr(s.size()));
				temp2 >> x;
				found = (level >= 0 && counter == LongSizeType(level));
				if (found)
					break;
				++counter;''')
r('Io/IoSimple.h','''SizeType i = 0;
      while (i < 1000) {
        try {
          advance(s, 0, true);
          i++;
        }''','''for (SizeType i = 0; i < 1000; ++i) {
				try {
					advance(s, 0, true);
				}''')
r('Options.h','''bool b = (find(registeredOptions_.begin(),
                       registeredOptions_.end(),
                       optsThatAreSet[i])
                  == registeredOptions_.end());
        if (!b)
          continue;''','''auto it = find(registeredOptions_.begin(),
				               registeredOptions_.end(),
				               optsThatAreSet[i]);
				if (it != registeredOptions_.end())
					continue;''')
r('Options.h','''bool b = (find(optsThatAreSet_.begin(),
                     optsThatAreSet_.end(),
                     thisOption)
                == optsThatAreSet_.end());
      return (!b);''','''return find(optsThatAreSet_.begin(), optsThatAreSet_.end(), thisOption) != optsThatAreSet_.end();''')
r('ParametersForSolver.h','''lotaMemory = (x > 0) ? 0 : 1;''','''lotaMemory = !(x > 0);''')
r('ParametersForSolver.h','''for (SizeType i = 0; i < ind; ++i) {
      const SizeType jnd = ind - i - 1;
      try {''','''for (SizeType jnd = ind; jnd-- > 0;) {
			try {''')
r('ParametersForSolver.h','''if (ind >= 0) {
      bunnie(t, prefix, ind, postfix, io);
    }
    else {
      hare(t, prefix, postfix, io);
    }''','''if (ind < 0)
			hare(t, prefix, postfix, io);
		else
			bunnie(t, prefix, ind, postfix, io);''')
r('DavidsonSolver.h','''if (PsimagLite::real(t * t) / tauin > k)
      return;
    for (SizeType i = 0; i < m; i++) {
      ComplexOrRealType tmp = scalarProduct(v[i], t);
      t = t - tmp * v[i];
    }''','''const bool enough = (PsimagLite::real(t * t) / tauin > k);
		if (!enough) {
			for (SizeType i = 0; i < m; ++i) {
				const ComplexOrRealType overlap = scalarProduct(v[i], t);
				t = t - overlap * v[i];
			}
		}''')
r('Profiling.h','''if (isDead_)
      return;
    OstringStream msg(std::cout.precision());
    msg() << "stopping clock " << message;
    progressIndicator_.printline(msg, os_);
    isDead_ = true;''','''if (!isDead_) {
			OstringStream msg(std::cout.precision());
			msg() << "stopping clock " << message;
			progressIndicator_.printline(msg, os_);
			isDead_ = true;
		}''')
