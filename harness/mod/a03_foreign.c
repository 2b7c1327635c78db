/* A03: a shared object that is no plugin, and has its own idea of the entry point */
int a03_foreign_data = 7;
int private_register_algo_impl( void* reg ) { (void)reg; __builtin_trap(); }
