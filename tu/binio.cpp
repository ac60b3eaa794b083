// Translation unit handed to clang: only includes the real header and requests instantiations.
// NRLib::VerifStream stands for any stream: write appends the bytes, read fills them or fails.
#include "nrlib/iotools/fileio.hpp"
namespace NRLib { struct VerifStream {
  VerifStream& write(const char* b, std::streamsize n);
  VerifStream& read(char* b, std::streamsize n);
  bool eof() const; bool good() const; bool fail() const; bool bad() const;
  std::streamsize gcount() const;
  bool operator!() const;
  explicit operator bool() const;
};  }
#define BOTH(NAME, T) \
  template void NRLib::WriteBinary##NAME(NRLib::VerifStream&, T, NRLib::Endianess); \
  template T NRLib::ReadBinary##NAME(NRLib::VerifStream&, NRLib::Endianess); \
  template void NRLib::WriteBinary##NAME##Array(NRLib::VerifStream&, std::vector<T>::iterator, std::vector<T>::iterator, NRLib::Endianess); \
  template std::vector<T>::iterator NRLib::ReadBinary##NAME##Array(NRLib::VerifStream&, std::vector<T>::iterator, size_t, NRLib::Endianess);
BOTH(Short, short)
BOTH(Int, int)
BOTH(Float, float)
BOTH(Double, double)
BOTH(IbmFloat, float)
