#include <um2/mesh/element_types.hpp>
using namespace um2;
extern "C" {
Int et_verts(int8_t t) { return verticesPerElem(static_cast<VTKElemType>(t)); }
int8_t et_infer(Int n) { return static_cast<int8_t>(inferVTKElemType(n)); }
int8_t et_fromx(int8_t x) { return static_cast<int8_t>(xdmfToVTKElemType(x)); }
int8_t et_tox(int8_t t) { return static_cast<int8_t>(vtkToXDMFElemType(static_cast<VTKElemType>(t))); }
// round trips
int8_t et_rtx(int8_t t) { return static_cast<int8_t>(xdmfToVTKElemType(static_cast<int8_t>(vtkToXDMFElemType(static_cast<VTKElemType>(t))))); }
int8_t et_rtv(int8_t x) { return static_cast<int8_t>(vtkToXDMFElemType(xdmfToVTKElemType(x))); }
int8_t et_rtn(int8_t t) { return static_cast<int8_t>(inferVTKElemType(verticesPerElem(static_cast<VTKElemType>(t)))); }
int8_t et_mesh(Vector<VTKElemType> const & v) { return static_cast<int8_t>(getMeshType(v)); }
}
