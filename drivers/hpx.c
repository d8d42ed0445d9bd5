/* Access to the HEALPix functions: one command per line, one answer per line (hexadecimal floats). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "chealpix.h"
#define LL(x) ((long long)(x))
int main(void)
  {
  static char b[4096];
  while (fgets(b,sizeof b,stdin))
    {
    long long n=0,p=0; double t=0,f=0,v[3]={0,0,0}; long a[4]; int64_t q[2];
    switch (b[0])
      {
      case 'a': case 'v':
        {
        int vec = b[0]=='v';
        if (vec) sscanf(b+1,"%lld %la %la %la",&n,v,v+1,v+2); else sscanf(b+1,"%lld %la %la",&n,&t,&f);
        int pow2=(n&(n-1))==0;
        a[0]=a[1]=-9; q[0]=q[1]=-9;
        if (n<=8192)
          {
          if (vec) vec2pix_ring(n,v,&a[0]); else ang2pix_ring(n,t,f,&a[0]);
          if (pow2) { if (vec) vec2pix_nest(n,v,&a[1]); else ang2pix_nest(n,t,f,&a[1]); }
          }
        if (vec) vec2pix_ring64(n,v,&q[0]); else ang2pix_ring64(n,t,f,&q[0]);
        if (pow2) { if (vec) vec2pix_nest64(n,v,&q[1]); else ang2pix_nest64(n,t,f,&q[1]); }
        printf("%ld %ld %lld %lld\n",a[0],a[1],LL(q[0]),LL(q[1]));
        break;
        }
      case 'p':
        { /* ring, nest, ring64, nest64: theta phi x y z; then the conversions of p: n2r r2n n2r64 r2n64 */
        sscanf(b+1,"%lld %lld",&n,&p);
        int pow2=(n&(n-1))==0, k;
        for (k=0;k<4;k++)
          {
          t=f=v[0]=v[1]=v[2]=-9;
          if (k==0 && n<=8192) { pix2ang_ring(n,p,&t,&f); pix2vec_ring(n,p,v); }
          if (k==1 && n<=8192 && pow2) { pix2ang_nest(n,p,&t,&f); pix2vec_nest(n,p,v); }
          if (k==2) { pix2ang_ring64(n,p,&t,&f); pix2vec_ring64(n,p,v); }
          if (k==3 && pow2) { pix2ang_nest64(n,p,&t,&f); pix2vec_nest64(n,p,v); }
          printf("%a %a %a %a %a ",t,f,v[0],v[1],v[2]);
          }
        a[0]=a[1]=-9;
        if (n<=8192) { nest2ring(n,p,&a[0]); ring2nest(n,p,&a[1]); }
        nest2ring64(n,p,&q[0]); ring2nest64(n,p,&q[1]);
        printf("%ld %ld %lld %lld\n",a[0],a[1],LL(q[0]),LL(q[1]));
        break;
        }
      case 'c':
        sscanf(b+1,"%lld",&p);
        printf("%ld %ld\n",p<=805306368+12*16384LL? npix2nside(p):-9,npix2nside64(p));
        break;
      case 's':
        sscanf(b+1,"%lld",&n);
        printf("%ld %lld\n",n<=8192?nside2npix(n):-9,LL(nside2npix64(n)));
        break;
      case 'w':
        sscanf(b+1,"%la %la",&t,&f); ang2vec(t,f,v);
        { double t2,f2; vec2ang(v,&t2,&f2); printf("%a %a %a %a %a\n",v[0],v[1],v[2],t2,f2); }
        break;
      case 'x':
        sscanf(b+1,"%la %la %la",v,v+1,v+2);
        { double t2,f2; vec2ang(v,&t2,&f2); printf("%a %a\n",t2,f2); }
        break;
      case 'B':
        { /* every pixel number of one resolution: count, and first pixel at which something is wrong (-1: none) */
        sscanf(b+1,"%lld",&n);
        long long np=12*n*n,bad=-1; int which=0;
        unsigned char *seen=calloc(np,1);
        for (p=0;p<np && bad<0;p++)
          {
          int64_t r,s; long r2,s2;
          nest2ring64(n,p,&r);
          if (r<0 || r>=np) { bad=p; which=1; break; }
          if (seen[r]&1) { bad=p; which=2; break; }
          seen[r]|=1;
          ring2nest64(n,r,&s); if (s!=p) { bad=p; which=3; break; }
          ring2nest64(n,p,&s); if (s<0 || s>=np || (seen[s]&2)) { bad=p; which=4; break; }
          seen[s]|=2;
          if (n<=8192)
            {
            nest2ring(n,p,&r2); if (r2!=r) { bad=p; which=5; break; }
            ring2nest(n,p,&s2); if (s2!=s) { bad=p; which=6; break; }
            }
          }
        free(seen);
        printf("%lld %lld %d\n",np,bad,which);
        break;
        }
      default: printf("?\n");
      }
    }
  return 0;
  }
