// The bundled CLAPACK refers to the Fortran I/O library (one warning in dlamch.c), which is not part of the repository.
extern "C" { __attribute__((weak)) int s_wsfe(void *) { return 0; } __attribute__((weak)) int do_fio(void *, char *, int) { return 0; } __attribute__((weak)) int e_wsfe() { return 0; } }
