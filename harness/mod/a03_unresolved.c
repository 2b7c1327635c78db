/* A03: cannot be loaded, one of its symbols exists nowhere */
extern int a03_symbol_that_does_not_exist;
int* a03_address = &a03_symbol_that_does_not_exist;
int private_register_algo_impls( void* reg ) { (void)reg; return *a03_address; }
