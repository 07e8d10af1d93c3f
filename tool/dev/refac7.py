R=[]
def r(f,o,n): R.append((f,o,n))
r('PredicateAwesome.h','''			if (tokens[i].length() > 0 && tokens[i][0] == '@') {
				if (!spec)
					throw RuntimeError(
					    String("PredicateAwesome:: with "
					           "default spec")
					    + " cannot handle special options\\n");
				spec->operator()(tokens[i]);
				continue;
			}

			predicateAnd_.push_back(
			    PredicateAnd(tokens[i], andSeparator));
''','''			const String& token = tokens[i];
			const bool isSpecial = (!token.empty() && token[0] == '@');
			if (!isSpecial) {
				predicateAnd_.push_back(PredicateAnd(token, andSeparator));
			}
			else {
				if (!spec)
					throw RuntimeError(
					    String("PredicateAwesome:: with "
					           "default spec")
					    + " cannot handle special options\\n");
				(*spec)(token);
			}
''')
r('PredicateAwesome.h','''		for (SizeType i = 0; i < n; ++i)
			if (predicateAnd_[i].isTrue(name, val))
				return true;
		return false;
''','''		bool result = false;
		for (SizeType i = 0; i < n && !result; ++i)
			result = predicateAnd_[i].isTrue(name, val);
		return result;
''')
r('PredicateAnd.h','''		VectorStringType names { name };
		typename Vector<T>::Type values { val };
		SizeType n = vPredicateSimple_.size();
		for (SizeType i = 0; i < n; ++i)
			if (!vPredicateSimple_[i].isTrue(names, values))
				return false;
		return true;
''','''		const VectorStringType names { name };
		const typename Vector<T>::Type values { val };
		for (auto& simple : vPredicateSimple_) {
			if (!simple.isTrue(names, values))
				return false;
		}
		return true;
''')
r('Options.h','''				bool b = (find(registeredOptions_.begin(),
				               registeredOptions_.end(),
				               optsThatAreSet[i])
				          == registeredOptions_.end());
				if (!b)
					continue;
''','''				const bool known = (find(registeredOptions_.begin(),
				                         registeredOptions_.end(),
				                         optsThatAreSet[i])
				                    != registeredOptions_.end());
				if (known)
					continue;
''')
r('Options.h','''			bool b = (find(optsThatAreSet_.begin(),
			               optsThatAreSet_.end(),
			               thisOption)
			          == optsThatAreSet_.end());
			return (!b);
''','''			return std::find(optsThatAreSet_.begin(), optsThatAreSet_.end(), thisOption) != optsThatAreSet_.end();
''')
r('ProgressIndicator.h','''		if (threadId_ != 0)
			return;
		if (rank_ != 0)
			return;
		prefix(os);
		os << s << "\\n";

		if (!bufferActive_)
			return;

		prefix(buffer_);
		buffer_() << s << "\\n";
''','''		if (threadId_ != 0 || rank_ != 0)
			return;

		prefix(os);
		os << s << "\\n";

		if (bufferActive_) {
			prefix(buffer_);
			buffer_() << s << "\\n";
		}
''')
r('ProgressIndicator.h','''		if (threadId_ != 0)
			return;

		caller_ = caller;
		rank_ = Concurrency::rank();
''','''		if (threadId_ == 0) {
			caller_ = caller;
			rank_ = Concurrency::rank();
		}
''')
r('ContinuedFractionCollection.h','''			if (wasEmpty) {
				v1[i].first = v2[i].first;
				v1[i].second = v2[i].second;
			}
			else {
				if (v1[i].first != v2[i].first)
					throw RuntimeError(
					    "CF: x coordinate different\\n");
				v1[i].second += v2[i].second;
			}
''','''			if (wasEmpty) {
				v1[i] = v2[i];
				continue;
			}

			if (v1[i].first != v2[i].first)
				throw RuntimeError("CF: x coordinate different\\n");

			v1[i].second += v2[i].second;
''')
r('ContinuedFractionCollection.h','''		bool wasEmpty = false;
		if (v1.size() == 0) {
			wasEmpty = true;
			v1.resize(v2.size());
		}
		else {
			if (v1.size() != v2.size()) {
				String s = "ContinuedFractionCollection::acc...(...)";
				s += " vectors must be of same length\\n";
				throw RuntimeError(s.c_str());
			}
		}
''','''		const bool wasEmpty = v1.empty();
		if (wasEmpty) {
			v1.resize(v2.size());
		}
		else if (v1.size() != v2.size()) {
			String s = "ContinuedFractionCollection::acc...(...)";
			s += " vectors must be of same length\\n";
			throw RuntimeError(s.c_str());
		}
''')
r('ContinuedFraction.h','''			ComplexType z(omega, params.delta);
			ComplexType res = iOfOmega(z, Eg_, isign_);
			std::pair<RealType, ComplexType> p(omega, res);
			result[counter++] = p;
			if (counter >= result.size())
				break;
''','''			const ComplexType z(omega, params.delta);
			result[counter].first = omega;
			result[counter].second = iOfOmega(z, Eg_, isign_);
			++counter;
			if (counter >= result.size())
				break;
''')
r('ContinuedFraction.h','''		if (freqEnum_ == FREQ_MATSUBARA || params.numberOfMatsubaras > 0) {
			plotMatsubara(result, params);
			return;
		}

		if (freqEnum_ == FREQ_REAL || params.numberOfMatsubaras == 0) {
			plotReal(result, params);
		}
''','''		if (freqEnum_ == FREQ_MATSUBARA || params.numberOfMatsubaras > 0)
			plotMatsubara(result, params);
		else
			plotReal(result, params);
''')
r('ContinuedFraction.h','''		for (SizeType l = 0; l < intensity_.size(); l++)
			sum += intensity_[l] / (z - isign * (offset - eigs_[l]));

		return sum * weight_;
''','''		const SizeType total = intensity_.size();
		for (SizeType l = 0; l < total; ++l) {
			const RealType pole = isign * (offset - eigs_[l]);
			sum += intensity_[l] / (z - pole);
		}

		return weight_ * sum;
''')
r('ContinuedFraction.h','''		for (SizeType i = 0; i < T.rows(); i++) {
			intensity_[i] = T(0, i) * T(0, i);
		}
''','''		for (SizeType i = 0; i < intensity_.size(); ++i)
			intensity_[i] = std::pow(T(0, i), 2);
''')
r('ContinuedFraction.h','''		return (2.0 * ind + 1.0) * M_PI / params.beta;
''','''		const RealType oddInteger = 2.0 * ind + 1.0;
		return oddInteger * M_PI / params.beta;
''')
r('ChebyshevSolver.h','''		for (SizeType i = 0; i < mat_.rows(); i++) {
			VectorElementType tmp = val * z[i] - x[i];
			x[i] = y[i];
			y[i] = tmp;
		}
''','''		const SizeType nrows = mat_.rows();
		for (SizeType i = 0; i < nrows; ++i) {
			const VectorElementType previous = x[i];
			x[i] = y[i];
			y[i] = val * z[i] - previous;
		}
''')
r('ChebyshevSolver.h','''		RealType val = (isFirst) ? 1.0 : 2.0;

		atmp = 0.0;''','''		RealType val = 2.0;
		if (isFirst)
			val = 1.0;

		atmp = 0.0;''')
r('Geometry/GeometryDirection.h','''		SizeType h = (constantValues()) ? 0 : geometryBase_->handle(i, j);

		bool isMatrix = (aux_.orbitals > 1);
		if (!isMatrix) {
			assert(dataNumbers_.size() > h);
			return dataNumbers_[h];
		}
''','''		SizeType h = 0;
		if (!constantValues())
			h = geometryBase_->handle(i, j);

		if (aux_.orbitals <= 1) {
			assert(dataNumbers_.size() > h);
			return dataNumbers_[h];
		}
''')
r('Geometry/GeometryDirection.h','''		SizeType n = (aux.idof == GENERAL) ? 0 : getVectorSize();

		if (aux.idof == GENERAL) {
			geometryBase_->set(rawHoppings_, aux.orbitals);
			return;
		}
''','''		if (aux.idof == GENERAL) {
			geometryBase_->set(rawHoppings_, aux.orbitals);
			return;
		}

		SizeType n = getVectorSize();
''')
r('Geometry/LongChain.h','''		SizeType imin = (i1 < i2) ? i1 : i2;
		SizeType imax = (i1 > i2) ? i1 : i2;
		bool b = (imax - imin == distance_);
		if (!isPeriodic_)
			return b;
		bool b2 = (imax - imin == linSize_ - distance_);
		return (b || b2);
''','''		const SizeType separation = (i1 < i2) ? i2 - i1 : i1 - i2;
		if (separation == distance_)
			return true;
		return (isPeriodic_ && separation == linSize_ - distance_);
''')
r('Geometry/LongChain.h','''		if (i <= smax) {
			SizeType iPlus = i + distance_;
			return (iPlus < linSize_ && iPlus >= emin2);
		}

		return (i >= distance_ && (i - distance_) < emin);
''','''		if (i > smax)
			return (i >= distance_ && (i - distance_) < emin);

		const SizeType iPlus = i + distance_;
		return (iPlus < linSize_ && iPlus >= emin2);
''')
r('Geometry/LongChain.h','''		site += amount;
		while (site >= linSize_)
			site -= linSize_;
		return site;
''','''		SizeType translated = site + amount;
		for (; translated >= linSize_; translated -= linSize_) { }
		return translated;
''')
r('Geometry/LadderBath.h','''		if (c1 < 0 && c2 < 0)
			return connectedInCluster(i1, i2);
		if (c1 >= 0 && c2 >= 0)
			return false;
		if (c1 < 0) {
			return (SizeType(c2) == i1) ? true : false;
		}
		return (SizeType(c1) == i2) ? true : false;
''','''		const bool isCluster1 = (c1 < 0);
		const bool isCluster2 = (c2 < 0);
		if (isCluster1 && isCluster2)
			return connectedInCluster(i1, i2);
		if (!isCluster1 && !isCluster2)
			return false;
		return (isCluster1) ? SizeType(c2) == i1 : SizeType(c1) == i2;
''')
r('Geometry/LadderBath.h','''		int c1 = getClusterSite(i1).first;
		int c2 = getClusterSite(i2).first;
		if (c1 < 0 && c2 < 0)
			return calcDirInCluster(i1, i2);
		return DIRECTION_BATH;
''','''		const bool bothInCluster = (getClusterSite(i1).first < 0 && getClusterSite(i2).first < 0);
		return (bothInCluster) ? calcDirInCluster(i1, i2) : static_cast<SizeType>(DIRECTION_BATH);
''')
r('Io/IoSimple.h','''			for (int i = 0; i < xsize; i++) {
				typename X::value_type tmp;
				fin_ >> tmp;
				x[i] = tmp;
			}
			return sc;
''','''			for (int i = 0; i < xsize; ++i)
				fin_ >> x[i];
			return sc;
''')
r('Io/IoSimple.h','''			while (!fin_.eof()) {
				fin_ >> temp;
				if (fin_.eof())
					break;
				if (temp.substr(0, s.size()) == s) {
					foundOnce = true;
					IstringStream temp2(
					    temp.substr(s.size(), temp.size()));
					temp2 >> x;
					if (level >= 0 && counter == LongSizeType(level)) {
						found = true;
						break;
					}
					counter++;
				}
			}
''','''			while (!fin_.eof()) {
				fin_ >> temp;
				if (fin_.eof())
					break;

				const bool matches = (temp.substr(0, s.size()) == s);
				if (!matches)
					continue;

				foundOnce = true;
				IstringStream temp2(temp.substr(s.size()));
				temp2 >> x;
				found = (level >= 0 && counter == LongSizeType(level));
				if (found)
					break;
				++counter;
			}
''')
r('Io/IoSimple.h','''			SizeType i = 0;
			while (i < 1000) {
				try {
					advance(s, 0, true);
					i++;
				}
				catch (std::exception& e) {
					rewind();
					return i;
				}
			}
''','''			for (SizeType i = 0; i < 1000; ++i) {
				try {
					advance(s, 0, true);
				}
				catch (std::exception&) {
					rewind();
					return i;
				}
			}
''')
r('ParametersForSolver.h','''		lotaMemory = (x > 0) ? 0 : 1;
''','''		lotaMemory = !(x > 0);
''')
r('ParametersForSolver.h','''		for (SizeType i = 0; i < ind; ++i) {
			const SizeType jnd = ind - i - 1;
			try {
				io.readline(t,
				            prefix + ttos(jnd) + postfix + "=");
				return;
''','''		for (SizeType jnd = ind; jnd > 0; --jnd) {
			try {
				io.readline(t,
				            prefix + ttos(jnd - 1) + postfix + "=");
				return;
''')
r('ParametersForSolver.h','''		if (ind >= 0) {
			bunnie(t, prefix, ind, postfix, io);
		}
		else {
			hare(t, prefix, postfix, io);
		}
''','''		if (ind < 0)
			return hare(t, prefix, postfix, io);

		bunnie(t, prefix, ind, postfix, io);
''')
r('Profiling.h','''		if (isDead_)
			return;
		OstringStream msg(std::cout.precision());
		msg() << "stopping clock " << message;
		progressIndicator_.printline(msg, os_);
		isDead_ = true;
''','''		if (!isDead_) {
			OstringStream msg(std::cout.precision());
			msg() << "stopping clock " << message;
			progressIndicator_.printline(msg, os_);
			isDead_ = true;
		}
''')
