// Implementations of the interfaces nbody_solver::run works with; the bodies only call functions that the verifier replaces by contracts.
#include <cstddef>
#include "nbody_solver.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"
extern "C" {
#define OFF(n, c, f) extern const unsigned long nbv_##n; const unsigned long nbv_##n = __builtin_offsetof(c, f)
OFF(s_engine, nbody_solver, m_engine);
OFF(s_clamp, nbody_solver, m_clamp_to_box);
OFF(s_max, nbody_solver, m_max_step);
OFF(s_min, nbody_solver, m_min_step);
OFF(s_visitors, nbody_solver, m_check_visitors);
void nbv_advise(nbody_solver*, nbcoord_t); int nbv_write(nbody_data_stream*, const nbody_data*); void nbv_visit(nbody_step_visitor*, const nbody_data*);
}
struct nbv_solver : nbody_solver { nbv_solver(); const char* type_name() const override { return ""; } void advise(nbcoord_t dt) override { nbv_advise(this, dt); } };
struct nbv_stream : nbody_data_stream { int write(const nbody_data* d) override { return nbv_write(this, d); } };
struct nbv_step_visitor : nbody_step_visitor { nbv_step_visitor(); void visit(const nbody_data* d) override { nbv_visit(this, d); } };
nbv_solver::nbv_solver() {}
nbv_step_visitor::nbv_step_visitor() {}
nbody_data_stream* nbv_make_stream() { return new nbv_stream; }
