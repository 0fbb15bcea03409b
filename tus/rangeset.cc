// explicit instantiation of the code under verification (no code of its own)
#include "ByteBuffer.h"
template class mdp::RangeSet<mdp::BytesRange>;
