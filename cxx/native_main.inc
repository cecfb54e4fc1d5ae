// native driver: reads "<job> <hex word>..." lines, prints the output words
#include <cstdio>
#include <cstring>
#include <cstdlib>
extern "C" void vw_job(const uint64_t*, uint64_t*);
int main(){
  static char line[1<<16];
  while(fgets(line,sizeof line,stdin)){
    uint64_t in[64]={0}, out[64]={0};
    char*p=line; char*tok=strtok(p," \n"); if(!tok) continue;
    int n=0; int which=-1;
    for(int i=0;i<VW_NJOBS;i++) if(!strcmp(vw_names[i],tok)) which=i;
    while((tok=strtok(0," \n"))&&n<64) in[n++]=strtoull(tok,0,16);
    if(which<0){ printf("?\n"); fflush(stdout); continue; }
    vw_fns[which](in,out);
    printf("=");
    for(int i=0;i<vw_nout[which];i++) printf(" %llx",(unsigned long long)out[i]);
    printf("\n"); fflush(stdout);
  }
  return 0;
}
