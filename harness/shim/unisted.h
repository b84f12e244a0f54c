/* sys_path.cpp includes <unisted.h>, a misspelling of <unistd.h>. */
#include <unistd.h>
