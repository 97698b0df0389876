/* callback codec for synthetic tables: one cell, EE and the data of the table line */
#include <stdlib.h>
#include <string.h>
#include "bsdconv.h"
void cbconv(struct bsdconv_instance *ins){
	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
	struct data_st d;
	unsigned char *p;
	char *z=THIS_CODEC(ins)->data_z;
	memset(&d, 0, sizeof d);
	if(this_phase->state.data) memcpy(&d, z+(uintptr_t)this_phase->state.data, sizeof d);
	DATA_MALLOC(ins, this_phase->data_tail->next);
	this_phase->data_tail=this_phase->data_tail->next;
	this_phase->data_tail->next=NULL;
	this_phase->data_tail->flags=F_FREE;
	this_phase->data_tail->len=d.len+1;
	p=this_phase->data_tail->data=malloc(d.len+1);
	p[0]=0xEE;
	if(d.len) memcpy(p+1, z+(uintptr_t)de_offset(d.data), d.len);
	this_phase->state.status=NEXTPHASE;
}
