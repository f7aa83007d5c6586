/* The transposition that is used when there is no MKL, under another name */
#define Transpose TransposeOther
#define transpose transposeOtherInstance
#include "lube/transpose-adhoc.cpp"

namespace libube
{
    const UnaryFunctor& transposeOther() { return transposeOtherInstance; }
}
