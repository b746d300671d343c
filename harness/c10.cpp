#include <cstddef>
#include "nbody_space_heap_func.h"
#include "common.h"
// the portable fallback of the same text
namespace portable
{
#undef NBODY_SPACE_HEAP_FUNC_PRIV_H
#pragma push_macro("__GNUC__")
#undef __GNUC__
#define __OPENCL_VERSION__ 120
template<class index_t> struct func
{
#include "nbody_space_heap_func_priv.h"
};
#undef __OPENCL_VERSION__
#pragma pop_macro("__GNUC__")
}
template<class H, class I> static void tree(const char* nm, I n)
{
	CASE(cat(nm, " bodies=", n)); I size = 2 * n; std::vector<I> order; std::vector<I> st(1, 1);
	while(!st.empty()) { I c = st.back(); st.pop_back(); order.push_back(c); if(2 * c + 1 < size) { st.push_back(2 * c + 1); st.push_back(2 * c); } }
	std::vector<I> sub(size, 0), pos(size, 0);
	for(I c = size - 1; c >= 1; --c) sub[c] = 1 + (2 * c < size ? sub[2 * c] + sub[2 * c + 1] : 0);
	for(size_t k = 0; k < order.size(); ++k) pos[order[k]] = I(k);
	I c = 1;
	for(size_t k = 0; k < order.size(); ++k)
	{
		if(!CHECK(c == order[k], "walk is preorder", cat(nm, " n=", n, " step ", k, " got ", c, " want ", order[k]))) break;
		c = H::next_up(c, size);
	}
	CHECK(c == 1, "walk ends at the root", cat(nm, " n=", n, " got ", c));
	for(I q = 1; q < size; ++q)
	{
		size_t p = size_t(pos[q] + sub[q]); I want = p < order.size() ? order[p] : 1;
		CHECK(H::next_down(q) == want && H::skip_idx(q) == want, "skip passes over the subtree", cat(nm, " n=", n, " node ", q, " got ", H::next_down(q), " want ", want));
		CHECK(H::left_idx(q) == 2 * q && H::rght_idx(q) == 2 * q + 1, "children", cat(nm, " node ", q));
		CHECK(H::parent_idx(2 * q) == q && H::parent_idx(2 * q + 1) == q, "parent", cat(nm, " node ", q));
		CHECK(H::is_left(2 * q) && !H::is_left(2 * q + 1) && H::is_right(2 * q + 1) && !H::is_right(2 * q), "side", cat(nm, " node ", q));
		CHECK(H::left2right(2 * q) == 2 * q + 1, "sibling", cat(nm, " node ", q));
	}
	SAMPLE(g_case);
}
template<class H, class I> static void big(const char* nm)
{
	CASE(cat(nm, " large indices"));
	for(int k = 0; k < 20000; ++k)
	{
		I q = I(rnd64() % (1u << rnd64() % 30)) + 1; I t = q; while(t & 1) t >>= 1; I want = t + 1;
		CHECK(H::next_down(q) == want, "skip of a large index", cat(nm, " node ", q, " got ", H::next_down(q), " want ", want));
		I ones = (I(1) << (rndi(29) + 1)) - 1; CHECK(H::next_down(ones) == 1, "rightmost path ends the walk", cat(nm, " node ", ones));
		I s = I(rnd64() % (1u << 30)) & ~I(1); CHECK(H::next_up(q, s) == (2 * q < s ? 2 * q : want), "next of a large index", cat(nm, " node ", q, " size ", s));
	}
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv); int top = A.thorough ? 600 : 140;
	for(int n = 1; n <= top; ++n) { tree<nbody_heap_func<size_t>, size_t>("size_t", n); tree<nbody_heap_func<int>, int>("int", n); tree<portable::func<int>, int>("portable int", n); tree<portable::func<size_t>, size_t>("portable size_t", n); }
	for(int n : {512, 1024, 4095, 4096, 5000}) { tree<nbody_heap_func<size_t>, size_t>("size_t", n); tree<nbody_heap_func<int>, int>("int", n); tree<portable::func<int>, int>("portable int", n); }
	big<nbody_heap_func<size_t>, size_t>("size_t"); big<nbody_heap_func<int>, int>("int"); big<portable::func<int>, int>("portable int");
	return DONE();
}
