/* The NTRU solver of the Falcon reference implementation, as C16's oracle
   for one question only: does the solver of the specification's reference
   code give up on this (f, g)?  It is a heuristic (fixed word counts per
   depth, a quotient range per reduction), so whether a solvable pair is
   rejected is a property of the algorithm and not of the pair. */
#include "keygen.c"
__attribute__((visibility("default"))) int ref_solvable(unsigned logn, const int8_t *f, const int8_t *g)
{
	static int8_t F[1024], G[1024];
	static uint32_t tmp[28 * 1024];
	return solve_NTRU(logn, F, G, f, g, 127, tmp);
}
