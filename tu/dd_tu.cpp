// Pulls every public function under contract into one translation unit (no code of its own is verified).
#include "dd/Export.hpp"
#include "dd/Package.hpp"
#include "dd/GateMatrixDefinitions.hpp"
template class dd::Package<>;
namespace {
    template<class F> void use(F f) { [[maybe_unused]] volatile F g = f; }
}
extern "C" __attribute__((used)) void ddv_roots() {
    using namespace dd;
    using CN = ComplexNumbers;
    use(&CN::setTolerance); use(&CN::add); use(&CN::sub); use(&CN::mul); use(&CN::div); use(&CN::mag2); use(&CN::mag); use(&CN::arg); use(&CN::conj); use(&CN::neg);
    use(&CN::addCached); use(&CN::subCached); use(&CN::mulCached); use(&CN::divCached);
    use(static_cast<Complex (CN::*)(const Complex&)>(&CN::lookup));
    use(static_cast<Complex (CN::*)(const fp&, const fp&)>(&CN::lookup));
    use(static_cast<Complex (CN::*)(const ComplexValue&)>(&CN::lookup));
    use(static_cast<Complex (CN::*)(const std::complex<fp>&)>(&CN::lookup));
    use(&CN::incRef); use(&CN::decRef); use(&CN::garbageCollect); use(&CN::cacheCount); use(&CN::returnToCache); use(&CN::clear);
    use(static_cast<Complex (CN::*)()>(&CN::getTemporary));
    use(static_cast<Complex (CN::*)(const fp&, const fp&)>(&CN::getTemporary));
    use(static_cast<Complex (CN::*)(const ComplexValue&)>(&CN::getTemporary));
    use(static_cast<Complex (CN::*)()>(&CN::getCached));
    use(static_cast<Complex (CN::*)(const fp&, const fp&)>(&CN::getCached));
    use(static_cast<Complex (CN::*)(const ComplexValue&)>(&CN::getCached));
    use(static_cast<Complex (CN::*)(const std::complex<fp>&)>(&CN::getCached));
    use(&Complex::approximatelyEquals); use(&Complex::approximatelyZero); use(&Complex::approximatelyOne); use(&Complex::exactlyZero); use(&Complex::exactlyOne);
    use(&Complex::operator==); use(&Complex::operator!=);
    use(&U3mat); use(&U2mat); use(&Phasemat); use(&RXmat); use(&RYmat); use(&RZmat);
    use(&RXXmat); use(&RYYmat); use(&RZZmat); use(&RZXmat); use(&XXMinusYYmat); use(&XXPlusYYmat);
    use(static_cast<GateMatrix const*>(&Imat)); use(&Hmat); use(&Xmat); use(&Ymat); use(&Zmat); use(&Smat); use(&Sdagmat); use(&Tmat); use(&Tdagmat);
    use(&SXmat); use(&SXdagmat); use(&Vmat); use(&Vdagmat); use(&CXmat); use(&CZmat); use(&SWAPmat); use(&iSWAPmat); use(&iSWAPinvmat); use(&ECRmat); use(&DCXmat);
    use(&dEdge::setDensityConjugateTrue); use(&dEdge::setFirstEdgeDensityPathTrue); use(&dEdge::setDensityMatrixTrue); use(&dEdge::alignDensityEdge);
    using PK = Package<>;
    use(&PK::kronecker<vEdge>); use(&PK::kronecker<mEdge>); use(&PK::add<vEdge>); use(&PK::add<mEdge>); use(&PK::multiply<mEdge, vEdge>); use(&PK::multiply<mEdge, mEdge>);
    use(static_cast<ComplexValue (PK::*)(const vEdge&, const std::string&)>(&PK::getValueByPath<vEdge>)); use(static_cast<ComplexValue (PK::*)(const mEdge&, const std::string&)>(&PK::getValueByPath<mEdge>));
    use(&PK::incRef<vNode>); use(&PK::incRef<mNode>); use(&PK::incRef<dNode>); use(&PK::decRef<vNode>); use(&PK::decRef<mNode>); use(&PK::decRef<dNode>);
    use(&decltype(PK::toffoliTable)::insert); use(&decltype(PK::toffoliTable)::lookup); use(&decltype(PK::toffoliTable)::clear);
    use(&decltype(PK::densityNoise)::insert); use(&decltype(PK::densityNoise)::lookup); use(&decltype(PK::densityNoise)::clear);
    use(&decltype(PK::stochasticNoiseOperationCache)::insert); use(&decltype(PK::stochasticNoiseOperationCache)::lookup); use(&decltype(PK::stochasticNoiseOperationCache)::clear);
}
// values of the enumerators, for the specifications
extern "C" {
#define DDV_BASIS(n) extern const int ddv_basis_##n; const int ddv_basis_##n = static_cast<int>(dd::BasisStates::n);
DDV_BASIS(zero) DDV_BASIS(one) DDV_BASIS(plus) DDV_BASIS(minus) DDV_BASIS(right) DDV_BASIS(left)
}
// memo tables of the density-matrix and noise operations with more than one bucket (the default configuration has one)
template class dd::ComputeTable<dd::dEdge, dd::dEdge, dd::dCachedEdge, 16384>;
template class dd::ComputeTable<dd::dCachedEdge, dd::dCachedEdge, dd::dCachedEdge, 16384>;
template class dd::DensityNoiseTable<dd::dEdge, dd::dEdge, 4096>;
template class dd::StochasticNoiseOperationTable<dd::mEdge, 64>;
template class dd::UniqueTable<dd::dNode, 32768, 2048, 2, 131072>;
