/*
 * drv - conformance driver: executes a script of public-API operations against
 * the real libbsdconv and prints one JSON object per operation.
 *
 * Script: one operation per line, blank separated tokens. Byte strings are hex,
 * "-" is the NULL/empty marker.
 */
#include <stdio.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <dirent.h>
#include <signal.h>
#include <limits.h>
#include <sys/wait.h>
#include <malloc.h>
#define _BSDCONV_INTERNAL
#include "bsdconv.h"
#include <pthread.h>
/* where the answers go: each thread has its own place */
static __thread FILE *OUT;
#define printf(...) fprintf(OUT, __VA_ARGS__)
#undef putchar
#define putchar(c) fputc(c, OUT)
#ifdef __SANITIZE_ADDRESS__
size_t __sanitizer_get_current_allocated_bytes(void);
#endif

/* an output descriptor that takes a few bytes at a time and is interrupted now and then */
#include <sys/syscall.h>
static __thread int shortfd=-1; static __thread long shortn; static __thread unsigned shortk;
ssize_t write(int fd, const void *p, size_t n){
	if(fd>=0 && fd==shortfd && shortn>0 && n>0){
		if(++shortk%3==0){ errno=EINTR; return -1; }
		if(n>(size_t)shortn) n=shortn;
	}
	return syscall(SYS_write,fd,p,n);
}

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
/* what realpath() writes when there is no such file is written, too */
void __msan_unpoison(const volatile void *, size_t);
char *realpath(const char *p, char *r){
	char *(*f)(const char *, char *)=dlsym(RTLD_NEXT,"realpath"); char *o=f(p,r);
	if(r) __msan_unpoison(r,PATH_MAX);
	return o;
}
#endif
#endif

#define NSLOT 64
#define HKEYS 64
static struct bsdconv_instance *slot[NSLOT];
struct keep { void *p; struct keep *next; };
static struct keep *kept[NSLOT];
static FILE *attach[NSLOT][8];
static bsdconv_counter_t *hold[NSLOT][16];

static int hv(int c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='f')return c-'a'+10; if(c>='A'&&c<='F')return c-'A'+10; return -1;}
/* exact size buffer so that ASAN sees any overrun */
static unsigned char *unhex(const char *s, size_t *len){
	if(strcmp(s,"-")==0){ *len=0; return malloc(0); }
	size_t n=strlen(s)/2; unsigned char *r=malloc(n);
	for(size_t i=0;i<n;++i) r[i]=hv(s[2*i])*16+hv(s[2*i+1]);
	*len=n; return r;
}
static char *unhexs(const char *s){ size_t n; unsigned char *b=unhex(s,&n); char *r=malloc(n+1); memcpy(r,b,n); r[n]=0; free(b); return r; }
static void phex(const void *p, size_t n){ const unsigned char *u=p; for(size_t i=0;i<n;++i) printf("%02x",u[i]); }
static void pdat(struct data_rt *d){ putchar('"'); phex(d->data,d->len); putchar('"'); }
static void pstr(const char *s){ putchar('"'); phex(s,strlen(s)); putchar('"'); }

static void drop_kept(int s){ while(kept[s]){ struct keep *k=kept[s]; kept[s]=k->next; free(k->p); free(k);} }
static void keepbuf(int s, void *p){ struct keep *k=malloc(sizeof *k); k->p=p; k->next=kept[s]; kept[s]=k; }

static void counters(struct bsdconv_instance *ins){
	struct bsdconv_counter_entry *c=ins->counter; int f=0;
	printf(",\"ctr\":{");
	while(c){ const unsigned char *k=(const void *)c->key; printf("%s\"",f?",":""); for(;*k;++k) if(*k<32||*k=='"'||*k=='\\') printf("\\u%04x",*k); else putchar(*k); printf("\":%zu",(size_t)c->val); f=1; c=c->next; }
	printf("}");
}
/* (the sanitizer's own thread looks at /proc/self/statm now and then) */
static int nfds(void){ int n=0; struct dirent *e; DIR *d=opendir("/proc/self/fd"); if(!d) return -1; while((e=readdir(d))){ char t[PATH_MAX]; ssize_t k=readlinkat(dirfd(d),e->d_name,t,sizeof t-1); if(k<0) continue; t[k]=0; if(strncmp(t,"/proc/",6)) n++; } closedir(d); return n; }
static int nmaps(const char *sub, int so){ FILE *f=fopen("/proc/self/maps","r"); char b[4096]; int n=0; if(!f) return -1; while(fgets(b,sizeof b,f)) if(strstr(b,sub) && (strstr(b,".so")!=NULL)==so) n++; fclose(f); return n; }

static void setinput(struct bsdconv_instance *ins, int s, const char *hexd, int own){
	/* data "-" : no input at all; own: 1 = library frees; 0 = caller keeps */
	size_t n;
	if(strcmp(hexd,"-")==0){ ins->input.data=NULL; ins->input.len=0; ins->input.flags=0; ins->input.next=NULL; return; }
	if(strcmp(hexd,"_")==0) hexd="";
	unsigned char *b=unhex(hexd,&n);
	ins->input.data=b; ins->input.len=n; ins->input.next=NULL;
	if(own){ ins->input.flags=F_FREE; } else { ins->input.flags=0; keepbuf(s,b); }
}

/* cells separated by '.' => input.next chain */
static void setcells(struct bsdconv_instance *ins, int s, char *arg){
	char *k; struct data_rt *t=&ins->input; int first=1;
	while((k=strsep(&arg,"."))!=NULL){
		size_t n; unsigned char *b=unhex(k,&n);
		if(!first){ t->next=malloc(sizeof(struct data_rt)); t=t->next; }
		t->data=b; t->len=n; t->flags=F_FREE; t->next=NULL; first=0;
	}
	(void)s;
}

static int run_line(char *line){
	char *tok[4096]; int n=0; char *p=line, *k;
	while((k=strsep(&p," \n"))!=NULL){ if(*k){ tok[n++]=k; if(n>=4095)break; } }
	if(n==0) return 0;
	char *op=tok[0];
	#define S (atoi(tok[1]))
	#define I (slot[atoi(tok[1])])
	static const char *needs="destroy init feed cells pass held cellout pack creset counter cadd cptr cinc cread hset hget hhas hdel ctl attach ";
	char want[64]; snprintf(want,sizeof want,"%s ",op);
	if(strstr(needs,want) && I==NULL){ printf("{\"noinst\":1}\n"); return 0; }
	if(strcmp(op,"create")==0){
		char *c=unhexs(tok[2]); errno=0; int s=S;
		slot[s]=bsdconv_create(c); int e=errno;
		if(slot[s]) printf("{\"ok\":1}\n");
		else { char *m=bsdconv_error(); printf("{\"ok\":0,\"errno\":%d,\"msg\":\"%s\"}\n",e,m); free(m); }
		free(c);
	}else if(strcmp(op,"destroy")==0){
		int s=S; bsdconv_destroy(slot[s]); slot[s]=NULL; memset(hold[s],0,sizeof hold[s]); drop_kept(s); for(int i=0;i<8;++i) if(attach[s][i]){ fclose(attach[s][i]); attach[s][i]=NULL; }
		printf("{\"ok\":1}\n");
	}else if(strcmp(op,"init")==0){
		bsdconv_init(I); drop_kept(S); printf("{\"ok\":1}\n");
	}else if(strcmp(op,"feed")==0 || strcmp(op,"cells")==0){
		/* feed s flush mode arg data own */
		struct bsdconv_instance *ins=I; int fl=atoi(tok[2]); char *mode=tok[3]; long arg=atol(tok[4]);
		int own=n>6?atoi(tok[6]):1; FILE *fp=NULL; int pfd[2]; unsigned char *ob=NULL; char *fb=NULL; size_t fbn=0;
		if(strcmp(op,"cells")==0) setcells(ins,S,tok[5]); else setinput(ins,S,tok[5],own);
		if(mode[0]!='U' || fl) ins->flush=fl; /* U: as bsdconv_init() left it */
		if(mode[0]!='U'){ ins->output.data=NULL; ins->output.len=0; }
		int tmpfd=-1; size_t dlen=0; unsigned char *d=NULL;
		if(mode[0]=='A'){ ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.len=arg; }
		else if(mode[0]=='P'){ ins->output_mode=BSDCONV_PREMALLOCED; ob=malloc(arg+16); memset(ob,0xEE,arg+16); ins->output.data=ob; ins->output.len=arg; }
		else if(mode[0]=='Q'){ ins->output_mode=BSDCONV_PREMALLOCED; ins->output.data=NULL; ins->output.len=0; }
		else if(mode[0]=='F'){ ins->output_mode=BSDCONV_FILE; fp=open_memstream(&fb,&fbn); ins->output.data=fp; }
		else if(mode[0]=='D'){ ins->output_mode=BSDCONV_FD; tmpfd=memfd_create("o",0); shortfd=tmpfd; shortn=arg; shortk=0; ins->output.data=(void*)(intptr_t)tmpfd; }
		else if(mode[0]=='N'){ ins->output_mode=BSDCONV_NULL; }
		else if(mode[0]=='H'){ ins->output_mode=BSDCONV_HOLD; }
		(void)pfd;
		bsdconv(ins);
		printf("{");
		if(mode[0]=='A'){ printf("\"out\":\""); phex(ins->output.data,ins->output.len); printf("\",\"len\":%zu,",ins->output.len); 
			/* the reserve must be writable */
			if(arg>0) memset((char*)ins->output.data+ins->output.len,0,arg);
			bsdconv_free(ins->output.data); }
		else if(mode[0]=='P'){ size_t l=ins->output.len; int over=0; if((long)l>arg){over=1; l=arg;} for(int i=0;i<16;++i) if(ob[arg+i]!=0xEE) over=1; for(long i=(long)l;i<arg;++i) if(ob[i]!=0xEE) over=2;
			printf("\"out\":\""); phex(ob,l); printf("\",\"len\":%zu,\"over\":%d,",ins->output.len,over); free(ob);}
		else if(mode[0]=='Q'){ printf("\"out\":\"\",\"len\":%zu,",ins->output.len); }
		else if(mode[0]=='F'){ fclose(fp); printf("\"out\":\""); phex(fb,fbn); printf("\",\"len\":%zu,",fbn); free(fb); }
		else if(mode[0]=='D'){ shortfd=-1; dlen=lseek(tmpfd,0,SEEK_END); d=malloc(dlen+1); lseek(tmpfd,0,SEEK_SET); if(read(tmpfd,d,dlen)!=(ssize_t)dlen) abort(); close(tmpfd); printf("\"out\":\""); phex(d,dlen); printf("\",\"len\":%zu,",dlen); free(d); }
		else { printf("\"out\":\"\",\"len\":%zu,",ins->output.len); }
		ins->output.data=NULL;
		printf("\"ierr\":%zu,\"oerr\":%zu",(size_t)*ins->ierr,(size_t)*ins->oerr);
		counters(ins);
		printf("}\n");
	}else if(strcmp(op,"pass")==0){
		/* pass s flush data s2 flush2 : feed s, PASS to s2, run s2 automalloc; repeat chain over given slots */
		struct bsdconv_instance *ins=I; int i;
		int told=0; setinput(ins,S,tok[3],1); ins->flush=atoi(tok[2]);
		for(i=4;i<n;++i){
			struct bsdconv_instance *nx=slot[atoi(tok[i])];
			ins->output_mode=BSDCONV_PASS; ins->output.data=nx;
			nx->input.data=NULL; nx->input.len=0; nx->input.next=NULL; nx->input.flags=0;
			int was=nx->flush; bsdconv(ins); if(nx->flush!=was) told=1; /* flushing is for its caller to say */
			nx->flush=atoi(tok[2]);
			ins=nx;
		}
		ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.len=0;
		bsdconv(ins);
		printf("{\"out\":\""); phex(ins->output.data,ins->output.len); printf("\",\"len\":%zu,\"told\":%d",ins->output.len,told); free(ins->output.data); counters(ins); printf("}\n");
	}else if(strcmp(op,"held")==0){
		/* held s : cells every phase keeps, all their bytes looked at (for the checker of memory; the input's last cell may be
		   one that is used up and given back); bytes in all */
		struct bsdconv_instance *ins=I; int i; size_t k, nb=0; unsigned sum=0; printf("{\"held\":[");
		for(i=0;i<=ins->phasen;++i){ int nc=0; for(struct data_rt *q=ins->phase[i].data_head->next;q;q=q->next){ nc++; if(i) nb+=q->len; for(k=0;i && k<q->len;++k) sum=sum*31+((unsigned char*)q->data)[k]; if(!q->next && q!=ins->phase[i].data_tail) nc=-1000000; } printf("%s%d",i?",":"",nc); }
		printf("],\"bytes\":%zu,\"sum\":%u}\n",nb,sum%1000);
	}else if(strcmp(op,"cellout")==0){
		/* cellout s flush data : feed with HOLD, report pending output cells, then drop them (NULL) */
		struct bsdconv_instance *ins=I; 
		setinput(ins,S,tok[3],1); ins->flush=atoi(tok[2]); ins->output_mode=BSDCONV_HOLD; bsdconv(ins);
		struct data_rt *q=ins->phase[ins->phasen].data_head->next; int f=0;
		printf("{\"cells\":["); while(q){ printf("%s\"",f?",":""); phex(q->data,q->len); printf("\""); f=1; q=q->next; } printf("]");
		counters(ins); printf("}\n");
		ins->input.data=NULL; ins->flush=0; ins->output_mode=BSDCONV_NULL; bsdconv(ins);
	}else if(strcmp(op,"pack")==0){
		char *c=bsdconv_pack(I); printf("{\"s\":"); pstr(c); printf("}\n"); free(c);
	}else if(strcmp(op,"creset")==0){
		char *c=strcmp(tok[2],"-")?unhexs(tok[2]):NULL; bsdconv_counter_reset(I,c); free(c); printf("{\"ok\":1"); counters(I); printf("}\n");
	}else if(strcmp(op,"counter")==0){
		char *c=unhexs(tok[2]); bsdconv_counter_t *v=bsdconv_counter(I,c); free(c); printf("{\"v\":%zu",(size_t)*v); counters(I); printf("}\n");
	}else if(strcmp(op,"cadd")==0){
		char *c=unhexs(tok[2]); bsdconv_counter_t *v=bsdconv_counter(I,c); *v+=atol(tok[3]); free(c); printf("{\"v\":%zu",(size_t)*v); counters(I); printf("}\n");
	}else if(strcmp(op,"cptr")==0){
		char *c=unhexs(tok[2]); hold[S][atoi(tok[3])]=bsdconv_counter(I,c); free(c); printf("{\"v\":0"); counters(I); printf("}\n");
	}else if(strcmp(op,"cread")==0){
		bsdconv_counter_t *v=hold[S][atoi(tok[2])]; printf("{\"v\":%ld}\n",v?(long)*v:-1L);
	}else if(strcmp(op,"cinc")==0){
		bsdconv_counter_t *v=hold[S][atoi(tok[2])]; if(v) *v+=1; printf("{\"v\":0"); counters(I); printf("}\n");
	}else if(strcmp(op,"nofile")==0){
		/* at most n more descriptors (-1: as many as allowed) */
		struct rlimit rl; getrlimit(RLIMIT_NOFILE,&rl); rl.rlim_cur=rl.rlim_max; setrlimit(RLIMIT_NOFILE,&rl); long n=atol(tok[1]); int top=0; DIR *d=opendir("/proc/self/fd"); struct dirent *e; int self=dirfd(d);
		while((e=readdir(d))) if(e->d_name[0]!='.' && atoi(e->d_name)!=self && atoi(e->d_name)>top) top=atoi(e->d_name);
		closedir(d); rl.rlim_cur=n<0?rl.rlim_max:(rlim_t)(top+1+n); setrlimit(RLIMIT_NOFILE,&rl); printf("{\"ok\":1}\n");
	}else if(strcmp(op,"hset")==0){
		char *c=unhexs(tok[2]); bsdconv_hash_set(I,c,(void*)(intptr_t)atol(tok[3])); free(c); printf("{\"ok\":1}\n");
	}else if(strcmp(op,"hget")==0){
		char *c=unhexs(tok[2]); printf("{\"v\":%ld}\n",(long)(intptr_t)bsdconv_hash_get(I,c)); free(c);
	}else if(strcmp(op,"hhas")==0){
		char *c=unhexs(tok[2]); printf("{\"v\":%d}\n",bsdconv_hash_has(I,c)); free(c);
	}else if(strcmp(op,"hdel")==0){
		char *c=unhexs(tok[2]); bsdconv_hash_del(I,c); free(c); printf("{\"ok\":1}\n");
	}else if(strcmp(op,"ctl")==0){
		bsdconv_ctl(I,atoi(tok[2]),NULL,atoi(tok[3])); printf("{\"ok\":1}\n");
	}else if(strcmp(op,"attach")==0){
		/* attach s ctl path mode: a file of one's own, closed when the instance is gone */
		int s=S, k=atoi(tok[2])&7; FILE *old=attach[s][k]; attach[s][k]=fopen(tok[3],n>4?tok[4]:"w+"); bsdconv_ctl(slot[s],k,attach[s][k],0); if(old) fclose(old); printf("{\"ok\":%d}\n",attach[s][k]!=NULL);
	}else if(strcmp(op,"slurp")==0){
		/* what is in a file, which is emptied */
		char *f=unhexs(tok[1]); FILE *fp=fopen(f,"rb"); printf("{\"data\":\"");
		if(fp){ char b[4096]; size_t r; while((r=fread(b,1,sizeof b,fp))>0) phex(b,r); fclose(fp); if(truncate(f,0)){} }
		printf("\"}\n"); free(f);
	}else if(strncmp(op,"edit",4)==0){
		/* edit kind conv codec type pi ci */
		char *c=unhexs(tok[2]), *d=unhexs(tok[3]); int ty=atoi(tok[4]), pi=atoi(tok[5]), ci=atoi(tok[6]); char *r=NULL; char *kd=tok[1];
		if(!strcmp(kd,"ip")) r=bsdconv_insert_phase(c,d,ty,pi);
		else if(!strcmp(kd,"ic")) r=bsdconv_insert_codec(c,d,pi,ci);
		else if(!strcmp(kd,"rp")) r=bsdconv_replace_phase(c,d,ty,pi);
		else if(!strcmp(kd,"rc")) r=bsdconv_replace_codec(c,d,pi,ci);
		if(r){ printf("{\"s\":"); pstr(r); printf("}\n"); } else printf("{\"s\":null}\n");
		free(r); free(c); free(d);
	}else if(strcmp(op,"index")==0){
		/* index conv n m : where phase n, and codec m of it, are in the instance */
		char *c=unhexs(tok[1]); struct bsdconv_instance *ins=bsdconv_create(c);
		if(ins){ char *k=bsdconv_pack(ins); printf("{\"pack\":"); pstr(k); printf(",\"p\":%d,\"c\":%d}\n",bsdconv_get_phase_index(ins,atoi(tok[2])),bsdconv_get_codec_index(ins,atoi(tok[2]),atoi(tok[3]))); free(k); bsdconv_destroy(ins); }
		else printf("{\"pack\":null}\n");
		free(c);
	}else if(strcmp(op,"datum")==0){
		char *c=unhexs(tok[1]); struct data_rt d; int r=str2datum(c,&d); printf("{\"r\":%d,\"l\":[",r); if(!r){ pdat(&d); free(d.data); } printf("]}\n"); free(c);
	}else if(strcmp(op,"data")==0){
		char *c=unhexs(tok[1]); int r=-1; struct bsdconv_instance *ins=bsdconv_create("ASCII:ASCII"); struct data_rt *d=str2data(c,&r,ins), *q; printf("{\"r\":%d,\"l\":[",r);
		while(d){ q=d->next; pdat(d); if(q) printf(","); free(d->data); free(d); d=q; } printf("]}\n"); bsdconv_destroy(ins); free(c);
	}else if(strcmp(op,"alias")==0){
		char *c=unhexs(tok[2]); char *r=bsdconv_solve_alias(atoi(tok[1]),c); if(r){ printf("{\"s\":"); pstr(r); printf("}\n"); free(r);} else printf("{\"s\":null}\n"); free(c);
	}else if(strcmp(op,"modcheck")==0){
		char *c=unhexs(tok[2]); printf("{\"v\":%d,\"w\":%d}\n",!!bsdconv_module_check(atoi(tok[1]),c),!!bsdconv_codec_check(atoi(tok[1]),c)); free(c);
	}else if(strcmp(op,"list")==0){
		char **l=bsdconv_modules_list(atoi(tok[1])), **q=l; int f=0; char **m=bsdconv_codecs_list(atoi(tok[1])), **p=m; int same=1; printf("{\"l\":["); while(*q){ printf("%s",f?",":""); pstr(*q); f=1; if(!*p || strcmp(*p,*q)) same=0; if(*p){ free(*p); ++p; } free(*q); q++; } while(*p){ same=0; free(*p++); } free(l); free(m); printf("],\"same\":%d}\n",same);
	}else if(strcmp(op,"res")==0){
		char *w=getcwd(NULL,0); size_t live=0;
		dlerror(); dlerror(); /* it keeps its last message */
		#ifdef __SANITIZE_ADDRESS__
		live=__sanitizer_get_current_allocated_bytes();
		#else
		live=mallinfo2().uordblks;
		#endif
		printf("{\"live\":%zu,\"fds\":%d,\"maps\":%d,\"sos\":%d,\"cwd\":",live,nfds(),nmaps("share/bsdconv",0),nmaps("share/bsdconv",1)); pstr(w); printf("}\n"); free(w);
	}else if(strcmp(op,"echo")==0){
		printf("{\"echo\":\"%s\"}\n",n>1?tok[1]:"");
	}else{
		fprintf(stderr,"unknown op %s\n",op); return 2;
	}
	return 0;
}

/* par N: the N lines that follow, each begun by its thread's number, by these threads at the same time */
struct par { int k, n, rc, *own; char **line, **ans; pthread_barrier_t *bar; };
static void *par_run(void *a){
	struct par *p=a;
	pthread_barrier_wait(p->bar);
	for(int i=0;i<p->n && !p->rc;++i){
		if(p->own[i]!=p->k) continue;
		size_t z; OUT=open_memstream(&p->ans[i],&z); p->rc=run_line(p->line[i]); fclose(OUT);
	}
	return NULL;
}
static int par(int n){
	char **line=calloc(n,sizeof *line), **ans=calloc(n,sizeof *ans); int *own=calloc(n,sizeof *own), top=0, rc=0;
	for(int i=0;i<n;++i){
		char *l=NULL; size_t cap=0; if(getline(&l,&cap,stdin)<=0) return 2;
		char *e; own[i]=strtol(l,&e,10); line[i]=strdup(e); free(l); if(own[i]>top) top=own[i];
	}
	pthread_t *t=calloc(top+1,sizeof *t); struct par *q=calloc(top+1,sizeof *q); pthread_barrier_t bar; pthread_barrier_init(&bar,NULL,top+1);
	for(int k=0;k<=top;++k){ q[k]=(struct par){k,n,0,own,line,ans,&bar}; if(pthread_create(&t[k],NULL,par_run,&q[k])) abort(); }
	for(int k=0;k<=top;++k){ pthread_join(t[k],NULL); if(q[k].rc) rc=q[k].rc; }
	for(int i=0;i<n;++i){ if(ans[i]) fputs(ans[i],OUT); free(ans[i]); free(line[i]); }
	free(line); free(ans); free(own); free(t); free(q); pthread_barrier_destroy(&bar);
	return rc;
}

int main(int argc, char **argv){
	char *line=NULL; size_t cap=0; ssize_t r; int rc=0;
	static char obuf[1<<16]; setvbuf(stdout,obuf,_IOFBF,sizeof obuf);
	(void)argc; (void)argv;
	OUT=stdout;
	long ln=0;
	long cpu = getenv("DRV_CPU")? atol(getenv("DRV_CPU")) : 15;
	struct itimerval tv; memset(&tv,0,sizeof tv);
	while((r=getline(&line,&cap,stdin))>0){
		ln++;
		/* an operation that does not come back is ended (SIGPROF) */
		tv.it_value.tv_sec=cpu; setitimer(ITIMER_PROF,&tv,NULL);
		if(strncmp(line,"par ",4)==0){ printf("{\"ok\":1}\n"); rc=par(atoi(line+4)); }
		else rc=run_line(line);
		fflush(stdout);
		if(rc) break;
	}
	free(line);
	fflush(stdout);
	return rc;
}
