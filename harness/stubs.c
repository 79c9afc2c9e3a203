/* naptable.h is not in the repository, so this function cannot be built here. */
#include <stdlib.h>
#include <stdio.h>
__attribute__((weak)) void *random_k_descent_permutation() { fprintf(stderr,"stub: random_k_descent_permutation\n"); abort(); }
