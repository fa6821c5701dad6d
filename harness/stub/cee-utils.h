/* stands in for the external cee-utils library, which is not part of the repository: the one function of it that sqlite3/cee_dbm.c uses */
#ifndef CEE_UTILS_STUB
#define CEE_UTILS_STUB
#include <stddef.h>
extern char *cee_load_whole_file(const char *filename, size_t *len);
#endif
