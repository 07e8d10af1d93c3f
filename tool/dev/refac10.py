import re
R=[]
def r(f,o,n):
    """whitespace-insensitive: the first match in the file"""
    s=open('/repo/src/'+f).read()
    m=re.search(r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]',o)),s)
    if not m: print('NOT FOUND',f,o[:60]); return
    c=s[m.start():m.end()]
    if any(x==f and y==c for x,y,z in R): print('twice',f,o[:60])
    R.append((f,c,n))
r('AST/Node.h','''if (std::norm(v[1]) < 1e-6)
      return v[0];
    return v[0] / v[1];''','''const ValueType num = v[0];
		const ValueType& den = v[1];
		return (std::norm(den) < 1e-6) ? num : num / den;''')
r('AST/Node.h','''return (v[0] > 0) ? 1 : 0;''','''if (v[0] > 0)
			return 1;
		return 0;''')
r('AST/Node.h','''SizeType x = static_cast<SizeType>(v[0]);
    return x;''','''return static_cast<SizeType>(v[0]);''')
r('AST/Node.h',''': char_(i + 48)
      , strOneChar_(" ")
      , input_()
  {
    strOneChar_[0] = char_;
  }''',''': char_(i + 48)
	    , strOneChar_(1, char_)
	    , input_()
	{
	}''')
r('AST/Tree.h','''for (SizeType i = 0; i < descendants_.size(); i++) {
      values[i] = descendants_[i]->exec();
    }''','''SizeType k = 0;
		for (const TreeType* child : descendants_)
			values[k++] = child->exec();''')
r('AST/Tree.h','''if (descendants_.size() > 1)
      return false;
    if (descendants_.size() == 0)
      return true;
    return descendants_[0]->isLinearTree();''','''const SizeType n = descendants_.size();
		if (n == 1)
			return descendants_[0]->isLinearTree();
		return (n == 0);''')
r('AST/Tree.h','''if (str.length() > 1)
      return;
    const char c = str[0];
    if (c < 48 || c > 57)
      return;
    SizeType index = c - 48;''','''if (str.length() != 1)
			return;
		const char c = str[0];
		const bool isDigit = (c >= '0' && c <= '9');
		if (!isDigit)
			return;
		const SizeType index = c - '0';''')
r('GetBraOrKet.h','''if (isP == b)
      return;
    throw PsimagLite::RuntimeError(
        "Internal ERROR: checkIfPpvector\\n");''','''if (isP != b)
			throw PsimagLite::RuntimeError(
			    "Internal ERROR: checkIfPpvector\\n");''')
r('GetBraOrKet.h','''SizeType i = start;
    for (; i < str.length(); ++i) {
      unsigned char x = str[i];
      if (x < 48 || x > 57)
        break;
      number += str[i];
    }''','''SizeType i = start;
		while (i < str.length()) {
			const unsigned char x = str[i];
			if (x < 48 || x > 57)
				break;
			number.push_back(str[i]);
			++i;
		}''')
r('GetBraOrKet.h','''str = str.substr(i, str.length() - i);''','''str = str.substr(i);''')
r('GetBraOrKet.h','''const SizeType last = l - 1;
    if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
      braOrKet_ = braOrKet.substr(1, l - 2);
    if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
      braOrKet_ = braOrKet.substr(1, l - 2);
      isKet_ = false;
    }''','''const SizeType last = l - 1;
		if (l > 2 && braOrKet_[0] == '|' && braOrKet_[last] == '>')
			braOrKet_ = braOrKet.substr(1, l - 2);
		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
			isKet_ = false;
			braOrKet_ = braOrKet.substr(1, l - 2);
		}''')
r('CmplxOrReal.h','''const SizeType len = t.length();
    String buffer;
    for (SizeType i = 0; i < len; ++i) {
      if (t[i] == 'i') {
        if (isImag_)
          throw RuntimeError(
              "More than one i found\\n");
        isImag_ = true;
        continue;
      }
      buffer += t[i];
    }''','''String buffer;
		for (const char letter : t) {
			if (letter != 'i') {
				buffer += letter;
				continue;
			}
			if (isImag_)
				throw RuntimeError(
				    "More than one i found\\n");
			isImag_ = true;
		}''')
r('CmplxOrReal.h','''if (isImag_ && buffer == "")
      value_ = 1;
    else
      value_ = PsimagLite::atof(buffer);''','''value_ = (isImag_ && buffer.empty()) ? 1 : PsimagLite::atof(buffer);''')
r('CmplxOrReal.h','''bool isComplex = (t.find("i") != String::npos);
    if (isComplex)
      throw''','''if (t.find('i') != String::npos)
			throw''')
r('Complex.h','''} else if (str.back() != 'i') {
      imag = 0;
    } else if (sign == '-') {
      imag = -imag;
    }''','''} else if (str.back() == 'i') {
			if (sign == '-')
				imag = -imag;
		} else {
			imag = 0;
		}''')
r('PsimagLite.cpp','''if ((a % b) != 0) {
    throw RuntimeError("integerDivision: failed\\n");
  }
  return a / b;''','''const SizeType quotient = a / b;
	if (a - quotient * b != 0)
		throw RuntimeError("integerDivision: failed\\n");
	return quotient;''')
r('PsimagLite.cpp','''SizeType count = 0;
  while (x > 0) {
    x >>= 1;
    ++count;
  }
  return count;''','''SizeType count = 0;
	for (; x > 0; x >>= 1)
		++count;
	return count;''')
r('PsimagLite.cpp','''is >> pair.first;
  is >> pair.second;
  return is;''','''return is >> pair.first >> pair.second;''')
r('PsimagLite.cpp','''for (SizeType i = 0; i < n; ++i) {
    if (isdigit(str[i]))
      continue;
    if (str[i] == '-' || str[i] == '+')
      continue;
    throw RuntimeError("atoi received a non-digit: " + str + "\\n");
  }''','''for (SizeType i = 0; i < n; ++i) {
		const bool ok = isdigit(str[i]) || str[i] == '-' || str[i] == '+';
		if (!ok)
			throw RuntimeError("atoi received a non-digit: " + str + "\\n");
	}''')
r('PsimagLite.cpp','''const SizeType n = str.length();
  for (SizeType i = 0; i < n; ++i) {
    if (isdigit(str[i]))
      continue;
    return false;
  }
  return (n > 0);''','''if (str.empty())
		return false;
	for (SizeType i = 0; i < str.length(); ++i)
		if (!isdigit(str[i]))
			return false;
	return true;''')
r('PsimagLite.cpp','''tokens.push_back(str.substr(lastPos, pos - lastPos));''','''const SizeType howMany = pos - lastPos;
		const String token = str.substr(lastPos, howMany);
		tokens.push_back(token);''')
r('PsimagLite.cpp','''while ((start_pos = str.find(from, start_pos)) != String::npos) {
    str.replace(start_pos, from.length(), to);
    start_pos += to.length(); // In case 'to' contains 'from', like''','''for (;;) {
		start_pos = str.find(from, start_pos);
		if (start_pos == String::npos)
			break;
		str.replace(start_pos, from.length(), to);
		start_pos += to.length(); // In case 'to' contains 'from', like''')
r('Integrator.h','''switch (integ) {
    default:
      return qag(pts, key);
    case INTEG_QAGP:
      return qagp(pts);
    }''','''return (integ == INTEG_QAGP) ? qagp(pts) : qag(pts, key);''')
r('Integrator.h','''int status = gslWrapper_.gsl_integration_qagi(
        &f_, epsabs_, epsrel_, limit_, workspace_, &result_, &abserr_);
    if (status)
      gslWrapper_.printError(status);
    return result_;''','''const int status = gslWrapper_.gsl_integration_qagi(
		    &f_, epsabs_, epsrel_, limit_, workspace_, &result_, &abserr_);
		if (status != 0) {
			gslWrapper_.printError(status);
		}
		return result_;''')
r('TridiagonalMatrix.cpp','''if (info == 0)
    return;
  std::cerr << "dstedc_ failed with info = " << info << "\\n";
  throw RuntimeError("dstedc_ FAILED\\n");''','''if (info != 0) {
		std::cerr << "dstedc_ failed with info = " << info << "\\n";
		throw RuntimeError("dstedc_ FAILED\\n");
	}''')
r('Geometry/GeometryEx.h','''if (str == "star")
      enabled_ = true;''','''enabled_ = (str == "star");''')
r('Geometry/GeometryEx.h','''int k1 = k;
    int m = meshLength_;
    div_t q = std::div(k1, m);
    kvector[0] = -M_PI + q.quot * meshStep_;
    kvector[1] = -M_PI + q.rem * meshStep_;''','''const int k1 = k;
		const int m = meshLength_;
		const div_t q = std::div(k1, m);
		kvector[1] = q.rem * meshStep_ - M_PI;
		kvector[0] = q.quot * meshStep_ - M_PI;''')
r('Ainur/AinurState.h','''if (last > 1 && d[last - 1] == '!') {
      u = 0;
      d = d.substr(0, last - 1);
    }''','''const bool silent = (last > 1 && d[last - 1] == '!');
		if (silent) {
			u = 0;
			d.resize(last - 1);
		}''')
r('Ainur/AinurState.h','''bool flag = false;
    for (SizeType i = 0; i < n; ++i) {
      if (used_[i] > 0)
        continue;
      flag = true;
      break;
    }
    if (!flag)
      return;''','''bool flag = false;
		for (SizeType i = 0; i < n && !flag; ++i)
			flag = (used_[i] == 0);
		if (!flag)
			return;''')
r('Ainur/AinurState.h','''for (SizeType i = 0; i < n; ++i) {
      if (used_[i] > 0)
        continue;
      os << ainurVariables_[i].key << "\\n";
    }''','''for (SizeType i = 0; i < n; ++i)
			if (used_[i] == 0)
				os << ainurVariables_[i].key << "\\n";''')
r('Ainur/AinurState.h','''if (!used_[i])
        continue;
      const AinurVariable& ainurVar = ainurVariables_[i];
      map[ainurVar.key] = ainurVar.value;''','''const AinurVariable& ainurVar = ainurVariables_[i];
			if (used_[i] != 0)
				map[ainurVar.key] = ainurVar.value;''')
r('Ainur/AinurState.h','''auto it = std::find_if(ainurVariables_.begin(), ainurVariables_.end(), [&key](const AinurVariable& ainurVar) {
      return (ainurVar.key == key);
    });
    if (it == ainurVariables_.end())
      return -1;
    return it - ainurVariables_.begin();''','''const SizeType n = ainurVariables_.size();
		for (SizeType i = 0; i < n; ++i)
			if (ainurVariables_[i].key == key)
				return i;
		return -1;''')
r('Ainur/AinurState.h','''return (s.length() == 0 || s == ZERO_CHAR_STRING_);''','''if (s.empty())
			return true;
		return s == ZERO_CHAR_STRING_;''')
r('Ainur/AinurState.h','''while (expandMacros()) {
      if (avoidInfCounter++ > avoidInfMax) {
        err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\\n");
      }
    }''','''while (expandMacros()) {
			const bool tooMany = (avoidInfCounter > avoidInfMax);
			++avoidInfCounter;
			if (tooMany)
				err("Recursion limit of " + ttos(avoidInfMax) + " exceeded.\\n");
		}''')
r('Ainur/AinurState.h','''const bool b1 = (c > 96 && c < 123);
    const bool b2 = (c > 64 && c < 91);
    const bool b3 = (c > 47 && c < 58);
    return (b1 || b2 || b3 || c == '_');''','''const bool lower = ('a' <= c && c <= 'z');
		const bool upper = ('A' <= c && c <= 'Z');
		const bool digit = ('0' <= c && c <= '9');
		return (digit || c == '_' || lower || upper);''')
r('Ainur/AinurState.h','''if (str[0] == '"')
      str = str.substr(1, str.length() - 1);
    if (str.length() == 0)
      return str;
    if (str[str.length() - 1] == '"')
      str = str.substr(0, str.length() - 1);
    return str;''','''if (str[0] == '"')
			str = str.substr(1);
		if (str.empty())
			return str;
		const SizeType last = str.length() - 1;
		return (str[last] == '"') ? str.substr(0, last) : str;''')
r('Ainur/AinurState.h','''if (isValidCharForMacroName(c)) {
        macroName += c;
      }
      else {''','''if (isValidCharForMacroName(c)) {
				macroName += c;
				continue;
			}

			{''')
r('Ainur/AinurConvert1.cpp','''for (SizeType i = 1; i < m; ++i)
      t_[i] = t_[0];
    return;''','''std::fill(t_.begin() + 1, t_.end(), t_[0]);
		return;''')
r('Ainur/AinurConvert1.cpp','''t_.resize(n);
  for (SizeType i = 0; i < n; ++i) {
    String val = ainurMacros_.valueFromFunction(attr[i]);
    AinurComplex::convert(t_[i], val);
  }''','''t_.resize(n);
	for (SizeType i = 0; i < n; ++i)
		AinurComplex::convert(t_[i], ainurMacros_.valueFromFunction(attr[i]));''')
r('Ainur/AinurConvert1.cpp','''SizeType rows = attr.size();
  if (rows == 0)
    return;
  SizeType cols = attr[0].size();''','''const SizeType rows = attr.size();
	if (!rows)
		return;
	const SizeType cols = attr.front().size();''')
r('Ainur/AinurSpirit1.cpp','''if (name_ == "statement1") {
    String v1 = boost::fusion::at_c<0>(attr);
    String v2 = boost::fusion::at_c<1>(attr);
    state_.assign(v1, v2);
  }
  else if (name_ == "statement2") {
    String v1 = boost::fusion::at_c<0>(attr);
    String v2 = boost::fusion::at_c<1>(attr);
    state_.declare(v1, v2);
  }
  else {
    err("Ainur: bad action name " + name_ + "\\n");
  }''','''const String v1 = boost::fusion::at_c<0>(attr);
	const String v2 = boost::fusion::at_c<1>(attr);
	if (name_ == "statement1")
		state_.assign(v1, v2);
	else if (name_ == "statement2")
		state_.declare(v1, v2);
	else
		err("Ainur: bad action name " + name_ + "\\n");''')
r('Map.h','''for (MapIteratorType it = x.begin(); it != x.end(); ++it) {
    os << label << "[" << it->first << "]=" << it->second << "\\n";
  }''','''MapIteratorType it = x.begin();
	while (it != x.end()) {
		os << label << "[" << it->first << "]=" << it->second << "\\n";
		++it;
	}''')
r('AllocatorCpu.h','''if (n > this->max_size())
      throw std::runtime_error("Bad allocation\\n");
    typename BaseType::pointer x = (typename BaseType::pointer)globalMemoryCpu.allocate(
        n * sizeof(T));
    return static_cast<T*>(x);''','''if (this->max_size() < n)
			throw std::runtime_error("Bad allocation\\n");
		return static_cast<T*>(globalMemoryCpu.allocate(sizeof(T) * n));''')
r('MemoryCpu.h','''std::ostringstream msg;
    msg << "// Freed " << p;
    std::cout << msg.str() << "\\n";
    p = 0;''','''std::cout << "// Freed " << p << "\\n";''')
r('Pthreads.h','''pfs[j].blockSize = total / nthreads_;
      if (total % nthreads_ != 0)
        pfs[j].blockSize++;''','''const SizeType extra = (total % nthreads_ != 0) ? 1 : 0;
			pfs[j].blockSize = total / nthreads_ + extra;''')
r('Pthreads.h','''int cores = sysconf(_SC_NPROCESSORS_ONLN);
    cores_ = (cores > 0) ? cores : 1;''','''const int cores = sysconf(_SC_NPROCESSORS_ONLN);
		if (cores > 0)
			cores_ = cores;''')
r('Pthreads.h','''for (SizeType j = 0; j < nthreads_; ++j) {
      int ret = pthread_attr_destroy(attr[j]);
      checkForError(ret);
      delete attr[j];
      attr[j] = 0;
    }''','''for (SizeType j = 0; j < nthreads_; ++j) {
			checkForError(pthread_attr_destroy(attr[j]));
			delete attr[j];
		}''')
r('Parallelizer.h','''return (codeSectionParamss_.find(name) != codeSectionParamss_.end());''','''return codeSectionParamss_.count(name) > 0;''')
r('RandomForTests.h','''next_ = 16807 * (next_ % 127773) - 2836 * (next_ / 127773);''','''const int hi = next_ / 127773;
		const int lo = next_ % 127773;
		next_ = 16807 * lo - 2836 * hi;''')
r('LabelDisabled.h','''return (find(data_.begin(), data_.end(), label) != data_.end());''','''for (const String& x : data_)
			if (x == label)
				return true;
		return false;''')
r('LineMarker.h','''name_ = name + "=0";
    SizeType x = 0; // bogus
    io.readline(x, name_, level);''','''SizeType x = 0; // bogus
		name_ = name;
		name_ += "=0";
		io.readline(x, name_, level);''')
r('Limit.h','''rlimit_->rlim_cur = s;
    rlimit_->rlim_max = (h > s) ? h : s;
    int ret = setrlimit(RLIMIT_AS, rlimit_);
    checkRet(ret, "setrlimit");''','''rlimit_->rlim_max = std::max(h, s);
		rlimit_->rlim_cur = s;
		checkRet(setrlimit(RLIMIT_AS, rlimit_), "setrlimit");''')
r('Limit.h','''if (x == 0)
      return;
    std::cerr << "Call to " << msg << " failed\\n";
    std::cerr << strerror(errno) << "\\n";''','''if (x != 0)
			std::cerr << "Call to " << msg << " failed\\n"
			          << strerror(errno) << "\\n";''')
