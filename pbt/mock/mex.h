// Stand-in for MATLAB's mex.h: arrays with a class, dimensions and data, an error call
// that does not return, and a lock counter. Only what the gateways use.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum {
  mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS,
  mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS,
  mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS
} mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;

struct mxArray {
  mxClassID           cls = mxDOUBLE_CLASS;
  std::vector<mwSize> dims;
  bool                complex = false;
  char               *data = nullptr; // exactly sized, so that a memory checker sees overruns
  std::string         text;           // characters of a char array
  mxArray() {}
  mxArray(mxArray const &) = delete;
  ~mxArray() { delete[] data; }
  mwSize count() const { mwSize n = 1; for (mwSize d : dims) n *= d; return n; }
};

namespace mock {
  struct Error { std::string msg; };
  inline int &locks() { static int n = 0; return n; }
  inline std::vector<std::unique_ptr<mxArray>> &arena() { static std::vector<std::unique_ptr<mxArray>> a; return a; }
  inline size_t width(mxClassID c) {
    switch (c) {
      case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
      case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
      case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
      default: return 8;
    }
  }
  inline mxArray *make(mxClassID c, std::vector<mwSize> d) {
    arena().emplace_back(new mxArray);
    mxArray *a = arena().back().get();
    a->cls = c;
    a->dims = d;
    a->data = new char[a->count() * width(c)]();
    return a;
  }
  inline mxArray *text(std::string const &s) {
    mxArray *a = make(mxCHAR_CLASS, {1, s.size()});
    a->text = s;
    return a;
  }
}

inline mwSize mxGetNumberOfDimensions(mxArray const *a) { return a->dims.size(); }
inline mwSize const *mxGetDimensions(mxArray const *a) { return a->dims.data(); }
inline mwSize mxGetNumberOfElements(mxArray const *a) { return a->count(); }
inline mwSize mxGetM(mxArray const *a) { return a->dims[0]; }
inline mwSize mxGetN(mxArray const *a) { return a->count() / (a->dims[0] ? a->dims[0] : 1); }
inline mxClassID mxGetClassID(mxArray const *a) { return a->cls; }
inline void *mxGetData(mxArray const *a) { return a->data; }
// as MATLAB's, these hand out the data of an array that is not double
inline double *mxGetPr(mxArray const *a) { return reinterpret_cast<double *>(a->data); }
inline bool mxIsChar(mxArray const *a) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsComplex(mxArray const *a) { return a->complex; }
inline bool mxIsDouble(mxArray const *a) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsEmpty(mxArray const *a) { return a->count() == 0; }
inline bool mxIsNumeric(mxArray const *a) { return a->cls >= mxDOUBLE_CLASS; }
inline bool mxIsScalar(mxArray const *a) { return a->count() == 1; }
inline bool mxIsLogicalScalar(mxArray const *a) { return a->cls == mxLOGICAL_CLASS && a->count() == 1; }
inline bool mxIsLogicalScalarTrue(mxArray const *a) { return mxIsLogicalScalar(a) && a->data[0]; }
inline char const *mxGetClassName(mxArray const *a) {
  static char const *n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"};
  return n[a->cls];
}
inline double mxGetScalar(mxArray const *a) {
  if (a->count() == 0) return 0;
  switch (a->cls) {
    case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *reinterpret_cast<uint8_t *>(a->data);
    case mxINT8_CLASS: return *reinterpret_cast<int8_t *>(a->data);
    case mxINT16_CLASS: return *reinterpret_cast<int16_t *>(a->data);
    case mxCHAR_CLASS: case mxUINT16_CLASS: return *reinterpret_cast<uint16_t *>(a->data);
    case mxINT32_CLASS: return *reinterpret_cast<int32_t *>(a->data);
    case mxUINT32_CLASS: return *reinterpret_cast<uint32_t *>(a->data);
    case mxINT64_CLASS: return double(*reinterpret_cast<int64_t *>(a->data));
    case mxUINT64_CLASS: return double(*reinterpret_cast<uint64_t *>(a->data));
    case mxSINGLE_CLASS: return *reinterpret_cast<float *>(a->data);
    default: return *reinterpret_cast<double *>(a->data);
  }
}
inline mxArray *mxCreateNumericMatrix(mwSize r, mwSize c, mxClassID k, mxComplexity) { return mock::make(k, {r, c}); }
inline mxArray *mxCreateDoubleMatrix(mwSize r, mwSize c, mxComplexity) { return mock::make(mxDOUBLE_CLASS, {r, c}); }
inline mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mock::make(mxDOUBLE_CLASS, {1, 1}); std::memcpy(a->data, &v, 8); return a; }
inline mxArray *mxCreateLogicalScalar(bool v) { mxArray *a = mock::make(mxLOGICAL_CLASS, {1, 1}); a->data[0] = v; return a; }
inline mxArray *mxCreateString(char const *s) { return mock::text(s); }
inline char *mxArrayToString(mxArray const *a) { return a->cls == mxCHAR_CLASS ? const_cast<char *>(a->text.c_str()) : nullptr; }
inline void mxFree(void *) {}
[[noreturn]] inline void mexErrMsgTxt(char const *s) { throw mock::Error{s ? s : ""}; }
inline int mexPrintf(char const *, ...) { return 0; }
inline void mexWarnMsgTxt(char const *) {}
inline void mexLock(void) { ++mock::locks(); }
inline void mexUnlock(void) { --mock::locks(); }
