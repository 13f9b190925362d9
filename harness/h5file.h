// plain serial reader of HDF5 files (independent of the code under test)
#pragma once
#include <hdf5.h>
#include <string>
#include <vector>
#include <map>
#include <cstdint>
namespace hc {
struct H5Data
{
  bool ok = false;
  std::vector<uint64_t> dims;
  bool is_float = false, is_signed = false;
  size_t size = 0; // bytes per value
  std::vector<double> d;
  std::vector<int64_t> i;
  size_t n() const { size_t r = 1; for (auto x : dims) r *= x; return r; }
};
struct H5File
{
  hid_t f = -1;
  H5File(const std::string& name)
  {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    f = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  }
  ~H5File() { if (f >= 0) H5Fclose(f); }
  H5File(const H5File&) = delete;
  bool open() const { return f >= 0; }
  static bool is_group(hid_t f, const std::string& p)
  {
    hid_t g = H5Gopen2(f, p.c_str(), H5P_DEFAULT);
    if (g < 0) return false;
    H5Gclose(g);
    return true;
  }
  std::vector<std::string> list(const std::string& group) const
  {
    std::vector<std::string> r;
    hid_t g = H5Gopen2(f, group.c_str(), H5P_DEFAULT);
    if (g < 0) return r;
    auto cb = [](hid_t, const char* n, const H5L_info_t*, void* d) -> herr_t { ((std::vector<std::string>*)d)->push_back(n); return 0; };
    H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, nullptr, cb, &r);
    H5Gclose(g);
    return r;
  }
  static void describe(hid_t t, H5Data& r)
  {
    r.is_float = H5Tget_class(t) == H5T_FLOAT;
    r.is_signed = !r.is_float && H5Tget_sign(t) != H5T_SGN_NONE;
    r.size = H5Tget_size(t);
  }
  H5Data read(const std::string& path) const
  {
    H5Data r;
    hid_t ds = H5Dopen2(f, path.c_str(), H5P_DEFAULT);
    if (ds < 0) return r;
    hid_t sp = H5Dget_space(ds), t = H5Dget_type(ds);
    int nd = H5Sget_simple_extent_ndims(sp);
    std::vector<hsize_t> dm(nd > 0 ? nd : 1);
    H5Sget_simple_extent_dims(sp, dm.data(), nullptr);
    for (int k = 0; k < nd; k++) r.dims.push_back(dm[k]);
    describe(t, r);
    r.ok = true;
    if (r.n())
    {
      if (r.is_float) { r.d.resize(r.n()); r.ok = H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, r.d.data()) >= 0; }
      else { r.i.resize(r.n()); r.ok = H5Dread(ds, H5T_NATIVE_INT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, r.i.data()) >= 0; }
    }
    H5Tclose(t);
    H5Sclose(sp);
    H5Dclose(ds);
    return r;
  }
  std::map<std::string, H5Data> attributes(const std::string& group) const
  {
    std::map<std::string, H5Data> res;
    hid_t g = H5Gopen2(f, group.c_str(), H5P_DEFAULT);
    if (g < 0) return res;
    int n = H5Aget_num_attrs(g);
    for (int k = 0; k < n; k++)
    {
      hid_t a = H5Aopen_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, k, H5P_DEFAULT, H5P_DEFAULT);
      char nm[256] = {0};
      H5Aget_name(a, 255, nm);
      hid_t t = H5Aget_type(a);
      H5Data r;
      describe(t, r);
      r.ok = true;
      if (r.is_float) { r.d.resize(1); H5Aread(a, H5T_NATIVE_DOUBLE, r.d.data()); }
      else { r.i.resize(1); H5Aread(a, H5T_NATIVE_INT64, r.i.data()); }
      H5Tclose(t);
      H5Aclose(a);
      res[nm] = r;
    }
    H5Gclose(g);
    return res;
  }
};
} // namespace hc
