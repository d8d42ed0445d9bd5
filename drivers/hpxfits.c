/* HEALPix map files: w FILE NSIDE NEST COORD RAW | r FILE RAW | s FILE */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "chealpix.h"
int main(int argc,char **argv)
  {
  long ns=-7; char ord[128],cs[128];
  memset(ord,0,128); memset(cs,0,128);
  if (argv[1][0]=='w')
    {
    ns=atol(argv[3]); long np=12*ns*ns;
    float *m=malloc(np*sizeof(float)); FILE *f=fopen(argv[6],"rb");
    if (!f || fread(m,sizeof(float),np,f)!=(size_t)np) return 7;
    fclose(f);
    write_healpix_map(m,ns,argv[2],(char)atoi(argv[4]),argv[5]);
    free(m);
    printf("written\n");
    }
  else if (argv[1][0]=='r')
    {
    float *m=read_healpix_map(argv[2],&ns,cs,ord); long np=12*ns*ns;
    FILE *f=fopen(argv[3],"wb");
    if (!f || fwrite(m,sizeof(float),np,f)!=(size_t)np) return 7;
    fclose(f); free(m);
    printf("%ld|%s|%s\n",ns,ord,cs);
    }
  else
    {
    long k=get_fits_size(argv[2],&ns,ord);
    printf("%ld|%ld|%s\n",k,ns,ord);
    }
  return 0;
  }
