// Member offsets of nbody_data, for building symbolic pre-states (compiled with -fno-access-control).
#include <cstddef>
#include "nbody_data.h"
extern "C" {
#define OFF(n, c, f) extern const unsigned long nbv_##n; const unsigned long nbv_##n = __builtin_offsetof(c, f)
OFF(d_count, nbody_data, m_count);
OFF(d_time, nbody_data, m_time);
OFF(d_step, nbody_data, m_step);
OFF(d_box, nbody_data, m_box_size);
OFF(d_vrt, nbody_data, m_vertites);
OFF(d_vel, nbody_data, m_velosites);
OFF(d_mass, nbody_data, m_mass);
OFF(d_color, nbody_data, m_color);
OFF(d_radius, nbody_data, m_radius);
OFF(d_list, nbody_data, m_check_list);
OFF(d_done, nbody_data, m_initial_values_computed);
OFF(d_prev_cc, nbody_data, m_prev_compute_count);
OFF(d_tstart, nbody_data, m_timer_start);
OFF(d_tstep, nbody_data, m_timer_step);
}
