// The restrictor set-up is instantiated in files of its own.
#include <mfmg/dealii/amge_host.templates.hpp>
extern template class mfmg::AMGe_host<
    2, mfmg::DealIIMatrixFreeMeshEvaluator<2>,
    dealii::LinearAlgebra::distributed::Vector<double>>;
extern template class mfmg::AMGe_host<
    3, mfmg::DealIIMatrixFreeMeshEvaluator<3>,
    dealii::LinearAlgebra::distributed::Vector<double>>;
