typedef struct { int nf; struct { char key[40]; int m, n; double v[60]; } f[20]; char emsg[500], omsg[500]; } lr_t;
int loader_run(int nrhs, int isnum, const char *file, int nlhs, lr_t *o);
