#include_next <petscconf.h>
/* PETSc's own argument checking and event logging are compiled out */
#undef PETSC_USE_DEBUG
#undef PETSC_USE_LOG
