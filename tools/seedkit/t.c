/* t CONVERSION op...   ops: HEX feed; =HEX feed with flush; ! bsdconv_init
   ?NAME print counter; prints "out=<hex> ierr=N oerr=N" at the end */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"
int main(int argc, char **argv){
	struct bsdconv_instance *ins=bsdconv_create(argv[1]);
	int i; size_t k;
	if(!ins){ printf("create failed\n"); return 3; }
	bsdconv_init(ins);
	printf("out=");
	for(i=2;i<argc;++i){
		char *a=argv[i];
		if(*a=='!'){ bsdconv_init(ins); printf("/"); continue; }
		if(*a=='?'){ printf("(%s=%lu)", a+1, (unsigned long)*bsdconv_counter(ins, a+1)); continue; }
		int fl=*a=='=';
		a+=fl;
		size_t n=strlen(a)/2;
		unsigned char *d=malloc(n+1);
		for(k=0;k<n;++k){ unsigned v; sscanf(a+2*k, "%2x", &v); d[k]=v; }
		ins->output_mode=BSDCONV_AUTOMALLOC;
		ins->output.len=0;
		ins->input.data=d; ins->input.len=n; ins->input.flags=F_FREE; ins->input.next=NULL;
		ins->flush=fl;
		bsdconv(ins);
		for(k=0;k<ins->output.len;++k) printf("%02x", ((unsigned char *)ins->output.data)[k]);
		bsdconv_free(ins->output.data);
	}
	printf(" ierr=%lu oerr=%lu\n", (unsigned long)*bsdconv_counter(ins,"IERR"), (unsigned long)*bsdconv_counter(ins,"OERR"));
	bsdconv_destroy(ins);
	return 0;
}
