/* The DFT as it is when there is no MKL, under another name */
#define DFTBase DFTBaseOther
#define DFTImpl DFTImplOther
#define DFT DFTOther
#define IDFT IDFTOther
#include "lube/dft-kiss.cpp"

namespace libube
{
    UnaryFunctor* dftOther(int iSize, bool iInverse, var iType)
    {
        if (iInverse)
            return new IDFTOther(iSize, iType);
        return new DFTOther(iSize, iType);
    }
}
