// Simulation stand-in for BlueBrain/HighFive 2.2.2 over a simulated HDF5 store.
#ifndef HIGHFIVE_STUB_HPP
#define HIGHFIVE_STUB_HPP
#include <cstddef>
#include <cstdint>
#include <exception>
#include <initializer_list>
#include <string>
#include <vector>
#include <climits>
#include "simapi.h"
#ifdef ENABLE_MPI
#include <mpi.h>          // a parallel HDF5 brings MPI in
#endif
typedef unsigned long long hsize_t;
typedef long hid_t;
typedef int herr_t;
#define H5E_DEFAULT 0
inline herr_t H5Eset_auto(hid_t, void *, void *) { return 0; }
inline herr_t H5Eset_auto2(hid_t, void *, void *) { return 0; }
namespace HighFive {
class Exception : public std::exception {
  std::string m;
public:
  explicit Exception(const std::string &s) : m(s) {}
  const char *what() const noexcept override { return m.c_str(); }
  void setErrorMsg(const std::string &s) { m = s; }
};
#define HF_EXC(N) class N : public Exception { public: explicit N(const std::string &s) : Exception(s) {} };
HF_EXC(ObjectException) HF_EXC(DataTypeException) HF_EXC(FileException) HF_EXC(DataSpaceException)
HF_EXC(AttributeException) HF_EXC(DataSetException) HF_EXC(GroupException) HF_EXC(PropertyException)
HF_EXC(ReferenceException)
class DataSpace {
public:
  std::vector<size_t> dims, maxdims;
  static const size_t UNLIMITED = SIZE_MAX;
  DataSpace() {}
  explicit DataSpace(const std::vector<size_t> &d) : dims(d), maxdims(d) {}
  DataSpace(const std::vector<size_t> &d, const std::vector<size_t> &m) : dims(d), maxdims(m) {
    if (d.size() != m.size()) throw DataSpaceException("dims and maxdims must be the same length.");
  }
  DataSpace(std::initializer_list<size_t> d) : dims(d), maxdims(d) {}
  template <class T> static DataSpace From(const T &) { return DataSpace(std::vector<size_t>{1}); }
  std::vector<size_t> getDimensions() const { return dims; }
  size_t getNumberDimensions() const { return dims.size(); }
  std::vector<size_t> getMaxDimensions() const { return maxdims; }
};
template <class T> struct AtomicType { AtomicType() {} };
struct Chunking { std::vector<hsize_t> d;
  explicit Chunking(const std::vector<hsize_t> &v) : d(v) {}
  Chunking(std::initializer_list<hsize_t> v) : d(v) {} };
struct Deflate { explicit Deflate(unsigned) {} };
struct Shuffle { Shuffle() {} };
struct DataSetCreateProps { std::vector<hsize_t> chunk;
  void add(const Chunking &c) { chunk = c.d; }
  void add(const Deflate &) {} void add(const Shuffle &) {} };
struct FileAccessProps { bool mpio = false; };
struct FileDriver : FileAccessProps {};
struct MPIOFileDriver : FileAccessProps {
  template <class C, class I> MPIOFileDriver(C, I) { mpio = true; } };
class Attribute {
  int h; std::string p, n;
public:
  Attribute() : h(-1) {}
  Attribute(int h_, const std::string &p_, const std::string &n_) : h(h_), p(p_), n(n_) {}
  void w(const char *t, const std::string &v) const {
    if (simh5_write_attr(h, p.c_str(), n.c_str(), t, v.data(), v.size()) < 0)
      throw AttributeException("Unable to write to attribute: " + n); }
  void write(const std::string &v) const { w("string", v); }
  void write(const bool &v) const { w("bool", v ? "true" : "false"); }
  void write(const double &v) const { w("double", std::to_string(v)); }
  void write(const int &v) const { w("int", std::to_string(v)); }
};
namespace sim_detail {
  inline void flat(std::vector<double> &o, double v) { o.push_back(v); }
  template <class T> void flat(std::vector<double> &o, const std::vector<T> &v) { for (auto &x : v) flat(o, x); }
  template <class T> struct depth { static const size_t n = 0; };
  template <class T> struct depth<std::vector<T>> { static const size_t n = 1 + depth<T>::n; };
}
class DataSet;
class Selection {
  int h; std::string p; std::vector<size_t> o, c;
public:
  Selection(int h_, const std::string &p_, const std::vector<size_t> &o_, const std::vector<size_t> &c_)
    : h(h_), p(p_), o(o_), c(c_) {}
  template <class T> void write(const T &v) {
    size_t in = sim_detail::depth<T>::n, ds = c.size(); bool ok = in == ds;
    for (size_t i = c.size(); !ok && i > 0;) { --i; if (c[i] == 1) { --ds; if (in == ds) ok = true; } }
    if (!ok) throw DataSpaceException("Impossible to write buffer of dimensions into dataset of dimensions");
    std::vector<double> f; sim_detail::flat(f, v);
    if (simh5_write(h, p.c_str(), (int)c.size(), o.data(), c.data(), f.data(), f.size()) < 0)
      throw DataSetException("Error during HDF5 Write: " + p);
  }
};
class DataSet {
  int h; std::string p;
public:
  DataSet() : h(-1) {}
  DataSet(int h_, const std::string &p_) : h(h_), p(p_) {}
  Selection select(const std::vector<size_t> &o, const std::vector<size_t> &c,
                   const std::vector<size_t> & = std::vector<size_t>()) const {
    if (o.size() != c.size()) throw DataSpaceException("Unable to select hyperslap");
    return Selection(h, p, o, c); }
  std::vector<size_t> getDimensions() const {
    size_t d[8]; int n = simh5_dims(h, p.c_str(), d);
    if (n < 0) throw DataSetException("Unable to get DataSpace out of DataSet");
    return std::vector<size_t>(d, d + n); }
  DataSpace getSpace() const { return DataSpace(getDimensions()); }
  size_t getElementCount() const { size_t c = 1; for (auto x : getDimensions()) c *= x; return c; }
  void resize(const std::vector<size_t> &d) {
    size_t cur[8]; int n = simh5_dims(h, p.c_str(), cur);
    if (n < 0 || (size_t)n != d.size()) throw DataSetException("Invalid dataspace dimensions, got " + std::to_string(d.size()) + " expected " + std::to_string(n));
    if (simh5_resize(h, p.c_str(), (int)d.size(), d.data()) < 0)
      throw DataSetException("Could not resize dataset."); }
};
class Group {
protected:
  int h; std::string p;
public:
  Group() : h(-1) {}
  Group(int h_, const std::string &p_) : h(h_), p(p_) {}
  template <class T> Attribute createAttribute(const std::string &n, const DataSpace &) {
    if (simh5_create_attr(h, p.c_str(), n.c_str()) < 0)
      throw AttributeException("Unable to create the attribute \"" + n + "\":");
    return Attribute(h, p, n); }
  template <class T> Attribute createAttribute(const std::string &n, const T &v) {
    Attribute a = createAttribute<T>(n, DataSpace::From(v)); a.write(v); return a; }
  Group createGroup(const std::string &n, bool = true) {
    if (simh5_create_group(h, n.c_str()) < 0) throw GroupException("Unable to create the group \"" + n + "\":");
    return Group(h, n); }
  Group getGroup(const std::string &n) const {
    if (simh5_open_group(h, n.c_str()) < 0) throw GroupException("Unable to open the group \"" + n + "\":");
    return Group(h, n); }
  bool exist(const std::string &n) const {
    int r = simh5_exist(h, n.c_str()); if (r < 0) throw GroupException("Invalid link for exist()"); return r > 0; }
  template <class T> DataSet createDataSet(const std::string &n, const DataSpace &s, const AtomicType<T> &,
                                           const DataSetCreateProps &pr = DataSetCreateProps(), bool = true) {
    std::vector<size_t> ch(pr.chunk.begin(), pr.chunk.end());
    if (ch.empty()) ch.assign(s.dims.size(), 0);
    if (ch.size() != s.dims.size() ||
        simh5_create_dataset(h, n.c_str(), (int)s.dims.size(), s.dims.data(), s.maxdims.data(), ch.data()) < 0)
      throw DataSetException("Unable to create the dataset \"" + n + "\":");
    return DataSet(h, n); }
  template <class T> DataSet createDataSet(const std::string &n, const DataSpace &s,
                                           const DataSetCreateProps &pr = DataSetCreateProps()) {
    return createDataSet(n, s, AtomicType<T>(), pr); }
  DataSet getDataSet(const std::string &n) const {
    if (simh5_open_dataset(h, n.c_str()) < 0) throw DataSetException("Unable to open the dataset \"" + n + "\":");
    return DataSet(h, n); }
};
class File : public Group {
  std::string fn;
public:
  enum : unsigned { ReadOnly = 0x00u, ReadWrite = 0x01u, Truncate = 0x02u, Excl = 0x04u, Debug = 0x08u,
                    Create = 0x10u, Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
  explicit File(const std::string &f, unsigned flags = ReadOnly,
                const FileAccessProps &ap = FileDriver()) : Group(-1, "/"), fn(f) {
    bool must = (flags & (Truncate | Excl)) != 0, ooc = (flags & Create) != 0;
    int excl = (flags & Excl) != 0, trunc = (flags & Truncate) != 0;
    if (!must) {
      h = simh5_open(f.c_str(), (flags & ReadWrite) != 0, ap.mpio);
      if (h >= 0) return;
      if (!ooc) throw FileException("Unable to open file " + f);
      excl = 1; trunc = 0;
    }
    h = simh5_create(f.c_str(), excl, trunc && !excl, ap.mpio);
    if (h < 0) throw FileException("Unable to create file " + f);
  }
  File(const File &) = delete;
  File &operator=(const File &) = delete;
  ~File() { if (h >= 0) simh5_close(h); h = -2; }
  const std::string &getName() const { return fn; }
  void flush() { if (simh5_flush(h) < 0) throw FileException("Unable to flush file " + fn); }
};
}
#endif
