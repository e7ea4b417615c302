// input source for the lattice classes: labels with numbers, texts, vectors and matrices held in memory
#pragma once
#include "psx.h"
#include "PsimagLite.h"
#include "Matrix.h"
#include <map>
#include <sstream>

template <typename T>
struct GeoInput {
	std::map<std::string, long> num;
	std::map<std::string, std::string> text;
	std::map<std::string, std::vector<T>> vec;
	std::map<std::string, PsimagLite::Matrix<T>> mat;
	std::map<std::string, T> val;
	std::string prefix_;
	int version_ = 10;

	std::string& prefix() { return prefix_; }
	int version() const { return version_; }
	static std::string key(const std::string& s) { return s.size() && s[s.size() - 1] == '=' ? s.substr(0, s.size() - 1) : s; }
	// a label with prefix, or without
	template <typename M>
	typename M::const_iterator look(const M& m, const std::string& label) const
	{
		typename M::const_iterator it = m.find(prefix_ + key(label));
		if (it == m.end())
			throw PsimagLite::RuntimeError("missing " + label + "\n");
		return it;
	}
	void readline(int& x, const std::string& l) { x = (int)look(num, l)->second; }
	void readline(SizeType& x, const std::string& l) { x = (SizeType)look(num, l)->second; }
	void readline(double& x, const std::string& l) { x = (double)look(num, l)->second; }
	void readline(std::string& x, const std::string& l, bool = true) { x = look(text, l)->second; }
	void read(std::vector<T>& v, const std::string& l) { v = look(vec, l)->second; }
	void read(PsimagLite::Matrix<T>& m, const std::string& l) { m = look(mat, l)->second; }
};
