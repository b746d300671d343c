// Member offsets of the Barnes-Hut structures, for building symbolic pre-states (compiled with -fno-access-control).
#include <cstddef>
#include "nbody_engine_simple_bh.h"
extern "C" {
#define OFF(n, c, f) extern const unsigned long nbv_##n; const unsigned long nbv_##n = __builtin_offsetof(c, f)
OFF(h_center, nbody_space_heap, m_mass_center);
OFF(h_mass, nbody_space_heap, m_mass);
OFF(h_radius, nbody_space_heap, m_radius_sqr);
OFF(h_min, nbody_space_heap, m_box_min);
OFF(h_max, nbody_space_heap, m_box_max);
OFF(h_body, nbody_space_heap, m_body_n);
OFF(h_ratio, nbody_space_heap, m_distance_to_node_radius_ratio_sqr);
OFF(t_root, nbody_space_tree, m_root);
OFF(n_left, nbody_space_tree::node, m_left);
OFF(n_right, nbody_space_tree::node, m_right);
OFF(n_center, nbody_space_tree::node, m_mass_center);
OFF(n_mass, nbody_space_tree::node, m_mass);
OFF(n_radius, nbody_space_tree::node, m_radius_sqr);
OFF(n_min, nbody_space_tree::node, m_bmin);
OFF(n_max, nbody_space_tree::node, m_bmax);
OFF(n_body, nbody_space_tree::node, m_body_n);
extern const unsigned long nbv_node_size; const unsigned long nbv_node_size = sizeof(nbody_space_tree::node);
OFF(e_tree, nbody_engine_simple_bh_tree, m_tree);
OFF(e_heap, nbody_engine_simple_bh_heap, m_tree);
OFF(e_heapsl, nbody_engine_simple_bh_heap_stackless, m_tree);
}
// A visitor without a body: the visiting traversals are verified against its contract.
struct nbv_visitor
{
	void operator()(size_t body, const nbvertex_t& v, nbcoord_t mass) const;
};
template void nbody_space_tree::traverse<nbv_visitor>(nbv_visitor) const;
template void nbody_space_heap::traverse<nbv_visitor>(nbv_visitor) const;
template void nbody_space_heap_stackless::traverse<nbv_visitor>(nbv_visitor) const;
