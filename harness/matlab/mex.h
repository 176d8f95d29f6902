/* A stand-in for MATLAB's interface: as much of it as an interface function may use.  Arrays are exactly as
 * large as they say (an access beyond them is seen by the address sanitizer), errors leave the called function. */
#ifndef MEX_STAND_IN_H
#define MEX_STAND_IN_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdbool.h>
#include <ctype.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef bool mxLogical;
typedef char mxChar;
typedef double mxDouble;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct { mxClassID cls; mwSize m, n; void *data; } mxArray;
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...);
void mexErrMsgTxt(const char *txt);
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...);
void mexWarnMsgTxt(const char *txt);
int mexPrintf(const char *fmt, ...);
void *mxMalloc(size_t n);
void *mxCalloc(size_t n, size_t k);
void mxFree(void *p);
void *mxGetData(const mxArray *a);
double *mxGetPr(const mxArray *a);
double *mxGetDoubles(const mxArray *a);
double mxGetScalar(const mxArray *a);
mwSize mxGetM(const mxArray *a);
mwSize mxGetN(const mxArray *a);
mwSize mxGetNumberOfElements(const mxArray *a);
mwSize mxGetNumberOfDimensions(const mxArray *a);
size_t mxGetElementSize(const mxArray *a);
mxClassID mxGetClassID(const mxArray *a);
bool mxIsClass(const mxArray *a, const char *name);
bool mxIsDouble(const mxArray *a);
bool mxIsChar(const mxArray *a);
bool mxIsComplex(const mxArray *a);
bool mxIsEmpty(const mxArray *a);
bool mxIsNumeric(const mxArray *a);
bool mxIsInt32(const mxArray *a);
bool mxIsInt64(const mxArray *a);
bool mxIsUint64(const mxArray *a);
bool mxIsLogical(const mxArray *a);
bool mxIsScalar(const mxArray *a);
char *mxArrayToString(const mxArray *a);
int mxGetString(const mxArray *a, char *buf, mwSize n);
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f);
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *dims, mxClassID c, mxComplexity f);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateLogicalScalar(bool v);
mxArray *mxCreateLogicalMatrix(mwSize m, mwSize n);
mxArray *mxCreateString(const char *s);
void mxDestroyArray(mxArray *a);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#endif
