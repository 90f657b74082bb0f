// One of the instantiations of source/dealii/amge_host.cc, on its own so that
// they compile side by side.
#include <mfmg/dealii/amge_host.templates.hpp>
template class mfmg::AMGe_host<
    2, mfmg::DealIIMatrixFreeMeshEvaluator<2>,
    dealii::LinearAlgebra::distributed::Vector<double>>;
