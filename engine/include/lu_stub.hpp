// Eigen's PartialPivLU also stores the matrix's L1 norm, for rcond(), which the library never calls. Computing it takes the
// maximum of sums of moduli and would split paths for nothing, so the symbolic build leaves it out. Include before any use of LU.
#pragma once
#ifndef SR_NATIVE
#include <bertini2/mpfr_complex.hpp>
#include <bertini2/eigen_extensions.hpp>
#include <Eigen/LU>
#define SR_LU(T) template<> inline void Eigen::PartialPivLU<Eigen::Matrix<T,Eigen::Dynamic,Eigen::Dynamic>>::compute(){ m_l1_norm=RealScalar(0); const Index size=m_lu.rows(); m_rowsTranspositions.resize(size); typename TranspositionType::StorageIndex nb; Eigen::internal::partial_lu_inplace(m_lu,m_rowsTranspositions,nb); m_det_p=(nb%2)?-1:1; m_p=m_rowsTranspositions; m_isInitialized=true; }
SR_LU(std::complex<double>) SR_LU(bertini::mpfr_complex)
#undef SR_LU
#endif
