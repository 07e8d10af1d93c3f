R=[]
def r(f,o,n): R.append((f,o,n))
# InputNg: mysplit with find/substr is too clever; use break + helper
r('InputNg.h','''			for (SizeType i = 0; i < x.length(); i++) {
				if (x[i] == '@') {
					mode = SECOND;
					continue;
				}
				if (mode == FIRST)
					xfirst += x[i];
				else
					xsecond += x[i];
			}
			if (xsecond == "")
				return PairType(xfirst, 0);
			return PairType(xfirst, atoi(xsecond.c_str()));
''','''			for (const char c : x) {
				if (c == '@')
					mode = SECOND;
				else if (mode == FIRST)
					xfirst += c;
				else
					xsecond += c;
			}

			const SizeType number = (xsecond == "") ? 0 : atoi(xsecond.c_str());
			return PairType(xfirst, number);
''')
r('InputNg.h','''			PairType p1 = mysplit(x1);
			PairType p2 = mysplit(x2);
			if (p1.second == 0 && p2.second == 0)
				return (x1 < x2);
			if (p1.second == 0)
				return true;
			if (p2.second == 0)
				return false;
			if (p1.first != p2.first)
				return (x1 < x2);
			return (p1.second < p2.second);
''','''			const PairType p1 = mysplit(x1);
			const PairType p2 = mysplit(x2);
			const bool plain1 = (p1.second == 0);
			const bool plain2 = (p2.second == 0);
			if (plain1 != plain2)
				return plain1;
			if (plain1 || p1.first != p2.first)
				return (x1 < x2);
			return (p1.second < p2.second);
''')
# one helper shared by five readline
old='''				String label2 = label;
				SizeType last = label2.length();
				if (last > 0) {
					--last;
					if (label2[last] == '=')
						label2 = label.substr(0, last);
				}

				return ainur_->readValue(val, label2);
'''
r('InputNg.h',old,'''				return ainur_->readValue(val, dropEqual(label));
''')
r('InputNg.h','''		MapStrStrType map() const { return mapStrStr_; }
''','''		static String dropEqual(const String& label)
		{
			const SizeType len = label.length();
			if (len > 0 && label[len - 1] == '=')
				return label.substr(0, len - 1);
			return label;
		}

		MapStrStrType map() const { return mapStrStr_; }
''')
r('InputNg.h','''			SizeType k = 2;
			for (SizeType i = 0; i < m.rows(); i++)
				for (SizeType j = 0; j < m.cols(); j++)
					m(i, j) = atof(it->second[k++].c_str());
''','''			const Vector<String>::Type& values = it->second;
			for (SizeType i = 0; i < nrow; i++)
				for (SizeType j = 0; j < ncol; j++)
					m(i, j) = atof(values[2 + i * ncol + j].c_str());
''')
r('InputNg.h','''			SizeType len = it->second.size();
			assert(len > 1);
			val.resize(len - 1);
			for (SizeType i = 0; i < len - 1; i++) {
				val[i] = stringToComplexOrReal<NumericType>(
				    it->second[i + 1].c_str());
			}
''','''			SizeType len = it->second.size();
			assert(len > 1);
			val.resize(len - 1);
			for (SizeType i = 1; i < len; ++i)
				val[i - 1] = stringToComplexOrReal<NumericType>(it->second[i]);
''')
r('InputNg.h','''				char c = s[i];
				bool b1 = (c < 48 || c > 57);
				bool b2 = (c != '.' && c != '-' && c != '+' && c != 'e' && c != 'E');
				if (b1 && b2) {
					String str = s + " is not a real number\\n";
					str += "Suggestion: Add -DUSE_COMPLEX "
					       "to your Makefile.\\n";
					throw RuntimeError(str);
				}
''','''				const char c = s[i];
				if (c >= '0' && c <= '9')
					continue;
				if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')
					continue;
				String str = s + " is not a real number\\nSuggestion: Add -DUSE_COMPLEX to your Makefile.\\n";
				throw RuntimeError(str);
''')
r('InputNg.h','''			int x = -1;
			for (typename SomeMapType::iterator it = mymap.begin();
			     it != mymap.end();
			     ++it) {
				String root2 = findRootLabel(it->first);
				if (root1 == root2)
					x++;
			}
			return x;
''','''			int count = 0;
			for (auto it = mymap.begin(); it != mymap.end(); ++it)
				if (findRootLabel(it->first) == root1)
					++count;
			return count - 1;
''')
r('InputNg.h','''			String buffer("");
			const SizeType n = data_.length();
			for (SizeType i = 0; i < n; ++i) {
				if (data_[i] == '\\n') {
					vlines.push_back(buffer);
					buffer = "";
				}
				else {
					buffer += data_[i];
				}
			}
''','''			String buffer;
			const SizeType n = data_.length();
			for (SizeType i = 0; i < n; ++i) {
				const char c = data_[i];
				if (c != '\\n') {
					buffer += c;
					continue;
				}

				vlines.push_back(buffer);
				buffer.clear();
			}
''')
r('InputNg.h','''			if (c >= 48 && c <= 58)
				return NUMERIC_CHAR;
			if (c == '.' || c == '+' || c == '-')
				return NUMERIC_CHAR;
			if (c == '(' || c == ')' || c == ',')
				return NUMERIC_CHAR;
			if (c == '#')
				return COMMENT;
			return ALPHA_CHAR;
''','''			if (c == '#')
				return COMMENT;
			const bool isDigitLike = (c >= 48 && c <= 58);
			const bool isSign = (c == '.' || c == '+' || c == '-');
			const bool isComplexChar = (c == '(' || c == ')' || c == ',');
			return (isDigitLike || isSign || isComplexChar) ? NUMERIC_CHAR : ALPHA_CHAR;
''')
# IoNgSerializer
r('Io/IoNgSerializer.h','''		SizeType size = 0;
		read(size, name + "/Size");
		what.resize(size);
		for (SizeType i = 0; i < size; ++i)
			read(what[i], name + "/" + ttos(i));
''','''		const SizeType size = readSize(name);
		what.resize(size);
		for (SizeType i = 0; i < size; ++i)
			read(what[i], name + "/" + ttos(i));
''')
r('Io/IoNgSerializer.h','''	static hsize_t getHalfSize(hsize_t x)
''','''	SizeType readSize(String name)
	{
		SizeType size = 0;
		read(size, name + "/Size");
		return size;
	}

	static hsize_t getHalfSize(hsize_t x)
''')
r('Io/IoNgSerializer.h','''			if (i > 0 && ((i + 1) % 8 == 0))
				++bytes;
			if (bytes == blockSize) {
				bytes = 0;
				++j;
				mask = 1;
			}
''','''			const bool byteDone = (i > 0 && (i + 1) % 8 == 0);
			if (byteDone)
				++bytes;
			if (bytes != blockSize)
				continue;
			bytes = 0;
			mask = 1;
			++j;
''')
r('Io/IoNgSerializer.h','''		SizeType tmp = 0;
		SizeType level = 1;
		for (SizeType i = 0; i < booleanEncodedSize_; ++i) {
			tmp += x[i] * level;
			level *= byteSize;
		}
''','''		SizeType tmp = 0;
		for (SizeType i = 0, level = 1; i < booleanEncodedSize_; ++i, level *= byteSize)
			tmp += level * x[i];
''')
r('Io/IoNgSerializer.h','''		if (mode == NO_OVERWRITE)
			return;
		throw RuntimeError("Overwrite not supported for this type\\n");
''','''		if (mode != NO_OVERWRITE)
			throw RuntimeError("Overwrite not supported for this type\\n");
''')
r('Io/IoNgSerializer.h','''		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
			writeCanary();
''','''		canaryIfWriting();
''')
r('Io/IoNgSerializer.h','''	void readCanary()
	{''','''	void canaryIfWriting()
	{
		if (!hdf5file_ || mode_ == H5F_ACC_RDONLY)
			return;
		writeCanary();
	}

	void readCanary()
	{''')
r('Io/IoNgSerializer.h','''		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
		dataset->read(ptr, typeToH5<SomeType>());
		delete dataset;
''','''		H5::DataSet dataset(hdf5file_->openDataSet("Def/" + name));
		dataset.read(ptr, typeToH5<SomeType>());
''')
r('Io/IoNgSerializer.h','''			typename Vector<UnderlyingType>::Type temporary(
			    dims[0]);
			void* ptr2 = static_cast<void*>(&(temporary[0]));
			dataset->read(ptr2, typeToH5<UnderlyingType>());
			what.resize(dims[0]);
			for (SizeType i = 0; i < dims[0]; ++i)
				what[i] = temporary[i]; // real to complex
''','''			typename Vector<UnderlyingType>::Type temporary(n);
			void* ptr2 = static_cast<void*>(&(temporary[0]));
			dataset->read(ptr2, typeToH5<UnderlyingType>());
			what.resize(n);
			std::copy(temporary.begin(), temporary.end(), what.begin()); // real to complex
''')
r('Io/IoNgSerializer.h','''		if (allowOverwrite == ALLOW_OVERWRITE)
			overwrite<T>(name, ptr, dims, 1);
		else
			internalWrite<T>(name, ptr, dims, 1);
''','''		if (allowOverwrite != ALLOW_OVERWRITE)
			internalWrite<T>(name, ptr, dims, 1);
		else
			overwrite<T>(name, ptr, dims, 1);
''')
