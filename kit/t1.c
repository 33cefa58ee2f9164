#include "lfprog.h"
static act_t *a, *p; static int n, m;
static void r0(void* s) { printf("startup\n"); int v=7; lf_schedule_copy(a, MSEC(1), &v, 1); }
static void r1(void* s) { int v = *(int*)a->t.tmplt.token->value; printf("act %d\n", v); v++; n++; if (v<20) lf_schedule_copy(a, 0, &v, 1); else { lf_request_stop(); } }
static void rt(void* s) { m++; }
static void rs(void* s) { printf("shutdown %d %d\n", n, m); }
static void setup(void) { self_t* s=mkself(); a=mkaction(s,'l',0,sizeof(int)); at_startup(mkreaction(s,r0,0)); on(&a->t, mkreaction(s,r1,1)); at_shutdown(mkreaction(s,rs,2)); trigger_t*t=mktimer(0,USEC(100)); on(t,mkreaction(s,rt,0)); }
int main(){ return go(); }
