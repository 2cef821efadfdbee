// Explicit instantiations of repository templates that no library unit instantiates,
// so that their bodies are part of the analysed program.
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include "ExSeisDat/PIOL.hh"
template class exseis::utils::MPI_Distributed_vector<double>;
namespace {
using namespace exseis::PIOL;
inline void instantiate_direct(std::shared_ptr<ExSeisPIOL> piol)
{
    ReadDirect r(piol, "", DataMPIIO::Opt(), ObjectSEGY::Opt(), ReadSEGY::Opt());
    WriteDirect w(piol, "", DataMPIIO::Opt(), ObjectSEGY::Opt(), WriteSEGY::Opt());
}
void (*instantiate_direct_use)(std::shared_ptr<ExSeisPIOL>) = instantiate_direct;
}
