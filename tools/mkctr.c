/* mkctr FROM COUNT: entropy inputs (as in tools/mkrare.py) with which the block counter of the ChaCha20 generator in the first
   signing starts less than 290 blocks below 2^32, so that its low word wraps during that signing. The results are in
   fixtures/carry512.json (four searches of 25 minutes, from 10^10, 2*10^10, 3*10^10 and 4*10^10).

   gcc -O3 -I/repo/falcon/nistfalcon/src tools/mkctr.c /repo/falcon/nistfalcon/src/{shake,katrng}.c  */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "inner.h"
void randombytes_init(unsigned char*,unsigned char*,int); int randombytes(unsigned char*,unsigned long long);
int main(int c,char**v){ uint64_t a=strtoull(v[1],0,0), n=strtoull(v[2],0,0); 
 for(;n--;a++){ unsigned char e[48]={0}, s[48], t[56]; memcpy(e,&a,8); e[47]=0xa5; randombytes_init(e,0,256); randombytes(t,40); randombytes(s,48);
  inner_shake256_context sc; inner_shake256_init(&sc); inner_shake256_inject(&sc,s,48); inner_shake256_flip(&sc); inner_shake256_extract(&sc,t,56);
  uint32_t w; memcpy(&w,t+48,4); if (w > 0xffffffffu-290) { printf("%llu %u\n",(unsigned long long)a,-w); fflush(stdout);} }
 return 0;}
