#ifndef PETSC_INIT_HPP
#define PETSC_INIT_HPP
#include <petscksp.h>
#include "hx.hpp"
namespace hx {
inline void petsc_init() {
	static int argc = 2;
	static char a0[] = "check", a1[] = "-no_signal_handler";
	static char *av[] = {a0, a1, nullptr};
	static char **argv = av;
	if(PetscInitialize(&argc, &argv, nullptr, nullptr)) internal_error("PetscInitialize");
	PetscPushErrorHandler(PetscReturnErrorHandler, nullptr);
}
inline int finish_petsc() {
	const int r = finish();
	fflush(nullptr);
	_exit(r);       // leave MPI/PETSc teardown out of the picture
}
}
#endif
