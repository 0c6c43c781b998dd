// Velocity sets by name.
#pragma once
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/RD3Q27.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
namespace vt {
using namespace natrium;
inline boost::shared_ptr<Stencil> makeStencil(const std::string& n, double s) {
#define S(X) if (n == #X) return boost::make_shared<X>(s);
	S(D2Q9) S(D2Q19H) S(D2Q19V) S(D2Q25H) S(D2Q777) S(D3Q13) S(D3Q15) S(D3Q19) S(D3Q21) S(D3Q27) S(RD3Q27) S(D3V27) S(D3Q45) S(D3Q77)
#undef S
	throw std::runtime_error("no such set " + n);
}
}
