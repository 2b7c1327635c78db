/* A library that counts, and says when it comes and goes. */
#include <stdlib.h>
static int count = 0;
static int* gone = 0;
int k10_next( void ) { return ++count; }
/* (through the table of functions, as every call of an exported function) */
int k10_next_again( void ) { return k10_next(); }
void k10_tell( int* where ) { gone = where; }
int k10_value = 42;
int k10_a_name_that_is_as_long_as_names_of_functions_in_templates_get_and_then_some_more_0123456789_0123456789_0123456789( void ) { return 7; }
__attribute__( ( destructor ) ) static void leave( void ) { if( gone ) { ++*gone; } }
#ifdef K10_UNRESOLVED
extern int k10_nobody_defines_this( int );
int k10_calls_nobody( int a ) { return k10_nobody_defines_this( a ); }
#endif
