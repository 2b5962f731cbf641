/* a library to be loaded while the program runs: STEP and the state it keeps tell it from its sister */
static int count;
int host_next(void) { return count += STEP; }
