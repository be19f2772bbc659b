/* The same exploration of the hash table in src/commons. */
#define COMMONS_TABLE
#include "hashtab.c"
