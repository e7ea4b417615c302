// Stand-in for the HDF5 C++ interface, for the symbolic side only: files are trees of groups and typed
// datasets in memory. The native side (replays, sampled comparisons) uses the real library.
#ifndef PSX_H5CPP
#define PSX_H5CPP
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef unsigned long long hsize_t;
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_EXCL 0x0004u
enum H5F_scope_t { H5F_SCOPE_LOCAL = 0, H5F_SCOPE_GLOBAL = 1 };

namespace H5 {

class Exception {
	std::string msg_;

public:

	Exception(const std::string& m = "")
	    : msg_(m)
	{
	}
	virtual ~Exception() { }
	std::string getDetailMsg() const { return msg_; }
	static void dontPrint() { }
};
struct FileIException : Exception {
	FileIException(const std::string& m)
	    : Exception(m)
	{
	}
};
struct GroupIException : Exception {
	GroupIException(const std::string& m)
	    : Exception(m)
	{
	}
};
struct DataSetIException : Exception {
	DataSetIException(const std::string& m)
	    : Exception(m)
	{
	}
};
struct DataSpaceIException : Exception {
	DataSpaceIException(const std::string& m)
	    : Exception(m)
	{
	}
};

struct DataType {
	enum Code { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64 } code;
	DataType(Code c = I8)
	    : code(c)
	{
	}
	unsigned long getSize() const
	{
		static const unsigned long s[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8 };
		return s[code];
	}
};
struct PredType : DataType {
	PredType(Code c)
	    : DataType(c)
	{
	}
	static const PredType NATIVE_CHAR, NATIVE_SCHAR, NATIVE_UCHAR, NATIVE_SHORT, NATIVE_USHORT, NATIVE_INT,
	    NATIVE_UINT, NATIVE_LONG, NATIVE_ULONG, NATIVE_LLONG, NATIVE_ULLONG, NATIVE_FLOAT, NATIVE_DOUBLE,
	    NATIVE_HBOOL, NATIVE_INT8, NATIVE_UINT8, NATIVE_INT16, NATIVE_UINT16, NATIVE_INT32, NATIVE_UINT32,
	    NATIVE_INT64, NATIVE_UINT64;
};
inline const PredType PredType::NATIVE_CHAR(I8), PredType::NATIVE_SCHAR(I8), PredType::NATIVE_UCHAR(U8),
    PredType::NATIVE_SHORT(I16), PredType::NATIVE_USHORT(U16), PredType::NATIVE_INT(I32), PredType::NATIVE_UINT(U32),
    PredType::NATIVE_LONG(I64), PredType::NATIVE_ULONG(U64), PredType::NATIVE_LLONG(I64), PredType::NATIVE_ULLONG(U64),
    PredType::NATIVE_FLOAT(F32), PredType::NATIVE_DOUBLE(F64), PredType::NATIVE_HBOOL(U8), PredType::NATIVE_INT8(I8),
    PredType::NATIVE_UINT8(U8), PredType::NATIVE_INT16(I16), PredType::NATIVE_UINT16(U16), PredType::NATIVE_INT32(I32),
    PredType::NATIVE_UINT32(U32), PredType::NATIVE_INT64(I64), PredType::NATIVE_UINT64(U64);

class DataSpace {
public:

	std::vector<hsize_t> d;
	DataSpace() { }
	DataSpace(int rank, const hsize_t* dims, const hsize_t* = nullptr)
	    : d(dims, dims + rank)
	{
	}
	int getSimpleExtentNdims() const { return d.size(); }
	int getSimpleExtentDims(hsize_t* dims, hsize_t* = nullptr) const
	{
		for (unsigned long i = 0; i < d.size(); ++i)
			dims[i] = d[i];
		return d.size();
	}
	hsize_t total() const
	{
		hsize_t n = 1;
		for (unsigned long i = 0; i < d.size(); ++i)
			n *= d[i];
		return n;
	}
};
class DSetCreatPropList { };

namespace psx {
	struct Node {
		bool group = true;
		std::map<std::string, std::shared_ptr<Node>> kids;
		DataType type;
		DataSpace space;
		std::vector<unsigned char> data;
	};
	struct FileData {
		std::shared_ptr<Node> root;
		unsigned handles = 0; // files and objects that keep it open
		bool writable = false; // while open
	};
	inline std::map<std::string, std::shared_ptr<FileData>>& disk()
	{
		static std::map<std::string, std::shared_ptr<FileData>> d;
		return d;
	}
	struct Handle { // keeps a file open
		std::shared_ptr<FileData> f;
		Handle(const std::shared_ptr<FileData>& x)
		    : f(x)
		{
			++f->handles;
		}
		Handle(const Handle&) = delete;
		~Handle() { --f->handles; }
	};
	inline std::vector<std::string> split(const std::string& name)
	{
		std::vector<std::string> v;
		std::string w;
		for (unsigned long i = 0; i <= name.size(); ++i) {
			if (i < name.size() && name[i] != '/' && name[i] != '\0') {
				w += name[i];
				continue;
			}
			if (!w.empty() && w != ".")
				v.push_back(w);
			w = "";
			if (i < name.size() && name[i] == '\0')
				break;
		}
		return v;
	}
	// the group that holds the last part of a name, or null
	inline std::shared_ptr<Node> parent(const std::shared_ptr<Node>& root, const std::vector<std::string>& v)
	{
		std::shared_ptr<Node> n = root;
		for (unsigned long i = 0; i + 1 < v.size(); ++i) {
			auto it = n->kids.find(v[i]);
			if (it == n->kids.end() || !it->second->group)
				return nullptr;
			n = it->second;
		}
		return n;
	}
	inline std::shared_ptr<Node> find(const std::shared_ptr<Node>& root, const std::vector<std::string>& v)
	{
		if (v.empty())
			return root;
		std::shared_ptr<Node> p = parent(root, v);
		if (!p)
			return nullptr;
		auto it = p->kids.find(v.back());
		return it == p->kids.end() ? nullptr : it->second;
	}
	template <typename T>
	T load(const unsigned char* p)
	{
		T x;
		memcpy(&x, p, sizeof(T));
		return x;
	}
	template <typename T>
	void fromInteger(unsigned char* p, bool isSigned, unsigned long u)
	{
		T lo = T(~T(0)) < T(0) ? T(1UL << (8 * sizeof(T) - 1)) : T(0), hi = T(~lo);
		T x;
		if (isSigned && long(u) < 0) {
			if (lo == 0 || long(u) < long(lo))
				x = lo;
			else
				x = T(u);
		} else
			x = u > (unsigned long)(hi) ? hi : T(u);
		memcpy(p, &x, sizeof(T));
	}
	template <typename T>
	void fromReal(unsigned char* p, double v)
	{
		T lo = T(~T(0)) < T(0) ? T(1UL << (8 * sizeof(T) - 1)) : T(0), hi = T(~lo);
		T x;
		if (v != v)
			x = 0;
		else if (v <= double(lo))
			x = lo;
		else if (v >= double(hi))
			x = hi;
		else
			x = T(v);
		memcpy(p, &x, sizeof(T));
	}
	inline void convert(unsigned char* to, DataType tt, const unsigned char* from, DataType ft)
	{
		if (tt.code == ft.code) {
			memcpy(to, from, tt.getSize());
			return;
		}
		if (ft.code == DataType::F32 || ft.code == DataType::F64) {
			double v = ft.code == DataType::F32 ? double(load<float>(from)) : load<double>(from);
			switch (tt.code) {
			case DataType::I8: fromReal<signed char>(to, v); break;
			case DataType::U8: fromReal<unsigned char>(to, v); break;
			case DataType::I16: fromReal<short>(to, v); break;
			case DataType::U16: fromReal<unsigned short>(to, v); break;
			case DataType::I32: fromReal<int>(to, v); break;
			case DataType::U32: fromReal<unsigned>(to, v); break;
			case DataType::I64: fromReal<long>(to, v); break;
			case DataType::U64: fromReal<unsigned long>(to, v); break;
			case DataType::F32: {
				float f = v;
				memcpy(to, &f, 4);
				break;
			}
			case DataType::F64: memcpy(to, &v, 8); break;
			}
			return;
		}
		bool sg = false;
		unsigned long u = 0;
		switch (ft.code) {
		case DataType::I8: u = long(load<signed char>(from)), sg = true; break;
		case DataType::U8: u = load<unsigned char>(from); break;
		case DataType::I16: u = long(load<short>(from)), sg = true; break;
		case DataType::U16: u = load<unsigned short>(from); break;
		case DataType::I32: u = long(load<int>(from)), sg = true; break;
		case DataType::U32: u = load<unsigned>(from); break;
		case DataType::I64: u = load<unsigned long>(from), sg = true; break;
		default: u = load<unsigned long>(from); break;
		}
		switch (tt.code) {
		case DataType::I8: fromInteger<signed char>(to, sg, u); break;
		case DataType::U8: fromInteger<unsigned char>(to, sg, u); break;
		case DataType::I16: fromInteger<short>(to, sg, u); break;
		case DataType::U16: fromInteger<unsigned short>(to, sg, u); break;
		case DataType::I32: fromInteger<int>(to, sg, u); break;
		case DataType::U32: fromInteger<unsigned>(to, sg, u); break;
		case DataType::I64: fromInteger<long>(to, sg, u); break;
		case DataType::U64: fromInteger<unsigned long>(to, sg, u); break;
		case DataType::F32: {
			float f = sg ? float(long(u)) : float(u);
			memcpy(to, &f, 4);
			break;
		}
		case DataType::F64: {
			double f = sg ? double(long(u)) : double(u);
			memcpy(to, &f, 8);
			break;
		}
		}
	}
}

class DataSet {
	std::shared_ptr<psx::Handle> h_;
	std::shared_ptr<psx::Node> n_;
	bool writable_;

public:

	DataSet(const std::shared_ptr<psx::FileData>& f, const std::shared_ptr<psx::Node>& n, bool writable)
	    : h_(new psx::Handle(f))
	    , n_(n)
	    , writable_(writable)
	{
	}
	DataSpace getSpace() const { return n_->space; }
	void read(void* ptr, const DataType& mem) const
	{
		unsigned char* p = static_cast<unsigned char*>(ptr);
		const unsigned long m = mem.getSize(), s = n_->type.getSize(), k = n_->space.total();
		if (mem.code == n_->type.code) {
			if (k)
				memcpy(p, n_->data.data(), k * s);
			return;
		}
		for (unsigned long i = 0; i < k; ++i)
			psx::convert(p + i * m, mem, n_->data.data() + i * s, n_->type);
	}
	void write(const void* ptr, const DataType& mem) const
	{
		if (!writable_)
			throw DataSetIException("no write intent on file");
		const unsigned char* p = static_cast<const unsigned char*>(ptr);
		const unsigned long m = mem.getSize(), s = n_->type.getSize(), k = n_->space.total();
		if (mem.code == n_->type.code) {
			if (k)
				memcpy(n_->data.data(), p, k * s);
			return;
		}
		for (unsigned long i = 0; i < k; ++i)
			psx::convert(n_->data.data() + i * s, n_->type, p + i * m, mem);
	}
	void close()
	{
		h_.reset();
		n_.reset();
	}
};
class Group {
	std::shared_ptr<psx::Handle> h_;

public:

	Group(const std::shared_ptr<psx::FileData>& f)
	    : h_(new psx::Handle(f))
	{
	}
	void close() { h_.reset(); }
};

class H5File {
	std::shared_ptr<psx::Handle> h_;
	bool writable_;

	psx::FileData& file() const
	{
		if (!h_)
			throw FileIException("file is closed");
		return *h_->f;
	}
	void needWrite() const
	{
		if (!writable_)
			throw FileIException("no write intent on file");
	}

public:

	H5File(const std::string& name, unsigned flags)
	    : writable_(flags != H5F_ACC_RDONLY)
	{
		auto it = psx::disk().find(name);
		if (flags & (H5F_ACC_TRUNC | H5F_ACC_EXCL)) {
			if (it != psx::disk().end()) {
				if (flags & H5F_ACC_EXCL)
					throw FileIException("H5Fcreate failed");
				if (it->second->handles)
					throw FileIException("H5Fcreate failed");
			}
			std::shared_ptr<psx::FileData> f(new psx::FileData);
			f->root.reset(new psx::Node);
			f->writable = true;
			psx::disk()[name] = f;
			h_.reset(new psx::Handle(f));
			return;
		}
		if (it == psx::disk().end())
			throw FileIException("H5Fopen failed");
		if (it->second->handles == 0)
			it->second->writable = writable_;
		else if (writable_ && !it->second->writable)
			throw FileIException("H5Fopen failed");
		h_.reset(new psx::Handle(it->second));
	}
	void close() { h_.reset(); }
	void flush(H5F_scope_t) { file(); }
	Group createGroup(const std::string& name) const
	{
		psx::FileData& f = file();
		needWrite();
		std::vector<std::string> v = psx::split(name);
		std::shared_ptr<psx::Node> p = v.empty() ? nullptr : psx::parent(f.root, v);
		if (!p || p->kids.count(v.back()))
			throw GroupIException("H5Gcreate2 failed");
		p->kids[v.back()].reset(new psx::Node);
		return Group(h_->f);
	}
	Group createGroup(const char* name) const { return createGroup(std::string(name)); }
	Group openGroup(const std::string& name) const
	{
		std::shared_ptr<psx::Node> n = psx::find(file().root, psx::split(name));
		if (!n || !n->group)
			throw GroupIException("H5Gopen2 failed");
		return Group(h_->f);
	}
	Group openGroup(const char* name) const { return openGroup(std::string(name)); }
	DataSet openDataSet(const std::string& name) const
	{
		std::shared_ptr<psx::Node> n = psx::find(file().root, psx::split(name));
		if (!n || n->group)
			throw GroupIException("H5Dopen2 failed");
		return DataSet(h_->f, n, writable_);
	}
	DataSet openDataSet(const char* name) const { return openDataSet(std::string(name)); }
	DataSet createDataSet(const std::string& name, const DataType& t, const DataSpace& s, const DSetCreatPropList& = DSetCreatPropList()) const
	{
		psx::FileData& f = file();
		std::vector<std::string> v = psx::split(name);
		std::shared_ptr<psx::Node> p = v.empty() ? nullptr : psx::parent(f.root, v);
		if (!writable_ || !p || p->kids.count(v.back()))
			throw GroupIException("H5Dcreate2 failed");
		std::shared_ptr<psx::Node> n(new psx::Node);
		n->group = false;
		n->type = t;
		n->space = s;
		n->data.assign(s.total() * t.getSize(), 0);
		p->kids[v.back()] = n;
		return DataSet(h_->f, n, true);
	}
	void unlink(const std::string& name) const
	{
		psx::FileData& f = file();
		std::vector<std::string> v = psx::split(name);
		std::shared_ptr<psx::Node> p = v.empty() ? nullptr : psx::parent(f.root, v);
		if (!writable_ || !p || !p->kids.count(v.back()))
			throw GroupIException("H5Ldelete failed");
		p->kids.erase(v.back());
	}
	void unlink(const char* name) const { unlink(std::string(name)); }
};
}
#endif
