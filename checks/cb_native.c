#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char *cb_file; int cb_failed;
double cb_read(const char *name) { FILE *f=fopen(cb_file,"r"); char n[200]; double v=0,x; if (f) { while (fscanf(f,"%199s %la",n,&x)==2) if (!strcmp(n,name)) v=x; fclose(f); } return v; }
void cb_check(int c,const char *l) { if (!c) { printf("FAIL %s\n",l); cb_failed=1; } }
void HARNESS(void);
int main(int argc,char **argv) { cb_file=argc>1?argv[1]:"/dev/null"; HARNESS(); printf("DONE %d\n",cb_failed); return cb_failed; }
