/* The simulation itself is skipped: only initialisation is of interest. */
int __wrap_sim_run(void *s) { return 0; }
