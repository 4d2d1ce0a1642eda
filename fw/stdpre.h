/* Included after vf.h and before the renaming of libc functions */
