/* A minimal stand-in for the code that lfc generates: one environment, actions, timers and reactions that a
   demonstration sets up in setup().  Include once, after defining nothing; link with the runtime's sources. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "lf_types.h"
#include "lf_token.h"
#include "tag.h"
#include "schedule.h"
#include "low_level_platform.h"
#if !defined(LF_SINGLE_THREADED)
#include "scheduler.h"
#include "reactor_threaded.h"
#include "watchdog.h"
#endif
#ifndef NENV
#define NENV 1
#endif
#ifndef MAXN
#define MAXN 32
#endif
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAIL: " __VA_ARGS__); fprintf(stderr, "\n"); _exit(3); } } while (0)

typedef struct { self_base_t base; void* data; } self_t;
typedef struct { lf_action_base_t a; trigger_t t; reaction_t* rs[MAXN]; } act_t;

static environment_t envs_[NENV];
static int nwds_, ntimers, nstart, nshut, npresent;
static void setup(void);        /* provided by the demonstration: creates everything, before the counts are fixed */
static trigger_t* timers_[MAXN];
static reaction_t *start_[MAXN], *shut_[MAXN];
static bool* present_[MAXN];
static const char* args_[MAXN] = {"prog"};
static int nargs_ = 1;

int _lf_get_environments(environment_t** e) { *e = envs_; return NENV; }
void lf_set_default_command_line_options(void) {}
#ifndef FEDERATED
void lf_terminate_execution(environment_t* env) { (void)env; }
#endif
#if !defined(FEDERATED)
void logical_tag_complete(tag_t t) { (void)t; }
#else
#include "federate.h"
#include "net_util.h"
#include "net_common.h"
extern federate_instance_t _fed;
void logical_tag_complete(tag_t t) { lf_latest_tag_confirmed(t); }
/* input ports from other federates: mknet() */
lf_action_base_t* _lf_action_table[MAXN];
interval_t _lf_action_delay_table[MAXN];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[MAXN];
size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* port_absent_reaction[MAXN];
size_t num_port_absent_reactions;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[MAXN];
size_t staa_lst_size;
#endif
/* neighbours: upstream (federate, delay) and downstream federates */
static int nup_, up_[MAXN], ndown_, down_[MAXN];
static interval_t updelay_[MAXN];
void lf_send_neighbor_structure_to_RTI(int sock) {
  unsigned char b[9 + 12 * MAXN];
  size_t n = 9;
  b[0] = MSG_TYPE_NEIGHBOR_STRUCTURE;
  encode_int32(nup_, b + 1);
  encode_int32(ndown_, b + 5);
  for (int i = 0; i < nup_; i++, n += 10) { encode_uint16((uint16_t)up_[i], b + n); encode_int64(updelay_[i], b + n + 2); }
  for (int i = 0; i < ndown_; i++, n += 2) encode_uint16((uint16_t)down_[i], b + n);
  if (write_to_socket(sock, n, b)) _exit(5);
}
static void upstream(int fed, interval_t delay) { up_[nup_] = fed; updelay_[nup_++] = delay; _fed.has_upstream = true; }
static void downstream(int fed) { down_[ndown_++] = fed; _fed.has_downstream = true; }
#endif

static self_t* mkself(void) {
  self_t* s = (self_t*)calloc(1, sizeof(self_t));
  s->base.environment = &envs_[0];
  return s;
}
static reaction_t* mkreaction(self_t* s, reaction_function_t f, int level) {
  reaction_t* r = (reaction_t*)calloc(1, sizeof(reaction_t));
  r->function = f; r->deadline = -1; r->self = s; r->index = (index_t)level; r->name = "r";
  r->index |= ((index_t)0x7fffffffffffLL) << 16;   /* no deadline */
  return r;
}
static void on(trigger_t* t, reaction_t* r) { t->reactions[t->number_of_reactions++] = r; }
#if defined(FEDERATED)
static void init_fed_(environment_t* e) {
  lf_mutex_init(&lf_outbound_socket_mutex);
  lf_mutex_init(&socket_mutex);
  lf_cond_init(&lf_port_status_changed, &e->mutex);
  for (int i = 0; i < NUMBER_OF_FEDERATES; i++)
    _fed.sockets_for_inbound_p2p_connections[i] = _fed.sockets_for_outbound_p2p_connections[i] = -1;
  _lf_my_fed_id = FEDERATE_ID;
  lf_set_federation_id("x");
#ifndef NO_RTI
  lf_connect_to_rti("127.0.0.1", atoi(getenv("RTI_PORT")));
#ifdef P2P_SERVER
  lf_create_server(-1);
#endif
#endif
}
#endif
/* kind: 'l' logical action, 'p' physical action */
static act_t* mkaction(self_t* s, char kind, interval_t delay, size_t elsize) {
  act_t* a = (act_t*)calloc(1, sizeof(act_t));
  a->a.trigger = &a->t; a->a.parent = &s->base; a->t.reactions = a->rs;
  a->t.offset = delay; a->t.period = -1; a->t.is_physical = kind == 'p';
  a->t.last_tag = NEVER_TAG;
  a->a.tmplt.type.element_size = elsize; a->t.tmplt.type.element_size = elsize;
  present_[npresent++] = &a->a.is_present;
  return a;
}
#if defined(FEDERATED)
/* an input port from federate src (its number: the order of creation) */
static act_t* mknet(self_t* s, int src, size_t elsize, interval_t delay, int in_cycle) {
  act_t* a = mkaction(s, 'l', 0, elsize);
  a->a.source_id = src;
  a->t.intended_tag = NEVER_TAG;
  a->t.is_physical = delay == -2;
  a->t.last_known_status_tag = NEVER_TAG;
  _lf_action_delay_table[_lf_action_table_size] = delay;
  _lf_action_table[_lf_action_table_size++] = &a->a;
  if (in_cycle) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = &a->a;
  return a;
}
#endif
static trigger_t* mktimer(interval_t offset, interval_t period) {
  act_t* a = (act_t*)calloc(1, sizeof(act_t));
  a->t.is_timer = true; a->t.offset = offset; a->t.period = period; a->t.reactions = a->rs; a->t.last_tag = NEVER_TAG;
  timers_[ntimers++] = &a->t;
  return &a->t;
}
static void at_startup(reaction_t* r) { start_[nstart++] = r; }
static void at_shutdown(reaction_t* r) { shut_[nshut++] = r; }
#if !defined(LF_SINGLE_THREADED)
static watchdog_t* wds_[MAXN];
static watchdog_t* mkwatchdog(self_t* s, interval_t min, watchdog_function_t f) {
  watchdog_t* w = (watchdog_t*)calloc(1, sizeof(watchdog_t));
  if (!s->base.reactor_mutex) s->base.reactor_mutex = calloc(1, sizeof(lf_mutex_t));
  w->base = &s->base; w->expiration = NEVER; w->min_expiration = min; w->watchdog_function = f;
  wds_[nwds_++] = w;
  return w;
}
#endif
#ifdef MODAL_REACTORS
/* a mode of s; the first one is the initial mode; parent: enclosing mode or NULL */
static int nstates_;
static reactor_mode_state_t* states_[MAXN];
static reactor_mode_t* mkmode(self_t* s, reactor_mode_t* parent) {
  reactor_mode_t* m = (reactor_mode_t*)calloc(1, sizeof(reactor_mode_t));
  reactor_mode_state_t* st = &s->base._lf__mode_state;
  m->state = st; m->name = (char*)"m";
  if (!st->initial_mode) { st->initial_mode = st->current_mode = m; st->parent_mode = parent; states_[nstates_++] = st; }
  return m;
}
static void set_mode(self_t* s, reactor_mode_t* m, lf_mode_change_type_t how) {
  s->base._lf__mode_state.next_mode = m; s->base._lf__mode_state.mode_change = how;
}
#define NSTATES nstates_
#else
#define NSTATES 0
#endif
static void arg(const char* s) { args_[nargs_++] = s; }

#ifndef LEVELS
#define LEVELS 4
#endif
void lf_create_environments(void) {
  setup();
  for (int i = 0; i < NENV; i++) {
#if defined(LF_SINGLE_THREADED)
    int w = 1;
#else
    int w = _lf_number_of_workers ? (int)_lf_number_of_workers : 1;
#endif
    environment_init(&envs_[i], "env", i, w, i ? 0 : ntimers, i ? 0 : nstart, i ? 0 : nshut, 0, i ? 0 : npresent, i ? 0 : NSTATES, 0, i ? 0 : nwds_, NULL);
  }
  environment_t* e = &envs_[0];
  for (int i = 0; i < ntimers; i++) e->timer_triggers[i] = timers_[i];
  for (int i = 0; i < nstart; i++) e->startup_reactions[i] = start_[i];
  for (int i = 0; i < nshut; i++) e->shutdown_reactions[i] = shut_[i];
#if !defined(LF_SINGLE_THREADED)
  for (int i = 0; i < nwds_; i++) e->watchdogs[i] = wds_[i];
#endif
  for (int i = 0; i < npresent; i++) e->is_present_fields[i] = present_[i];
#ifdef MODAL_REACTORS
  for (int i = 0; i < nstates_; i++) e->modes->modal_reactor_states[i] = states_[i];
#endif
#if defined(FEDERATED_DECENTRALIZED)
  static tag_t none_[MAXN];
  for (int i = 0; i < npresent; i++) e->_lf_intended_tag_fields[i] = &none_[i];
#endif
}
#ifndef OWN_TRIGGERS
void _lf_initialize_trigger_objects(void) {
#if !defined(LF_SINGLE_THREADED)
  for (int i = 0; i < NENV; i++) {
    static size_t per[LEVELS];
    for (int k = 0; k < LEVELS; k++) per[k] = MAXN;
    sched_params_t p = {.num_reactions_per_level = per, .num_reactions_per_level_size = LEVELS};
    lf_sched_init(&envs_[i], (size_t)envs_[i].num_workers, &p);
  }
#endif
#if defined(FEDERATED)
  init_fed_(&envs_[0]);
#endif
}
#endif
static int go(void) { return lf_reactor_c_main(nargs_, args_); }
