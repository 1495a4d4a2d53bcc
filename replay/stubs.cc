// console output: silent; FATAL raises as in the real implementation
#include "OutputStream.hh"
#include "dsException.hh"
void OutputStream::WriteOut(OutputType ot, Verbosity_t, const std::string &msg) { if (ot == OutputType::FATAL) throw dsException(msg); }
void OutputStream::WriteOut(OutputType ot, const std::string &msg) { if (ot == OutputType::FATAL) throw dsException(msg); }
OutputStream::Verbosity_t OutputStream::GetVerbosity(const std::string &) { return Verbosity_t::V0; }
