/* What the LF compiler would generate for a federate, driven by the program description. */
#define MAXNET 24
extern int _lf_my_fed_id;
extern federate_instance_t _fed;
extern federation_metadata_t federation_metadata;
static interval_t net_delay(const sp_net* n) { return n->delay < 0 ? NEVER : n->delay; }
lf_action_base_t* _lf_action_table[MAXNET];
interval_t _lf_action_delay_table[MAXNET];
size_t _lf_action_table_size = 0;
lf_action_base_t* _lf_zero_delay_cycle_action_table[MAXNET];
size_t _lf_zero_delay_cycle_action_table_size = 0;
reaction_t* network_input_reactions[MAXNET];
size_t num_network_input_reactions = 0;
reaction_t* port_absent_reaction[MAXNET];
size_t num_port_absent_reactions = 0;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[MAXNET];
size_t staa_lst_size = 0;
#endif

static int net_out(const sp_net* n) { return n->src_node == node_id; }
static int net_in(const sp_net* n) { return n->dst_node == node_id; }

static void net_ev(int what, int k, tag_t t, int64_t len, uint64_t h, uint64_t first, tag_t it) {
  sim_net_event(what, k, t.time - lf_time_start(), t.microstep, len, h, first, it.time == NEVER ? INT64_MIN : it.time - lf_time_start(), it.microstep);
}
static void net_sender_body(self_t* self, const sp_reaction* R) {
  (void)self;
  const sp_net* n = &P->nets[R->net_id];
  const sp_port* p = &P->ports[R->trig[0].id];
  port_v* in = chan_v[p->first_chan];
  if (!in->is_present) return;
  char name[16];
  snprintf(name, sizeof name, "federate %d", n->dst_node);
  int64_t len;
  uint64_t h, first;
  unsigned char* buf;
  size_t bytes;
  if (p->ptype == PT_V) {
    len = 1; first = (uint64_t)in->value; h = hash_arr(&in->value, 1); buf = (unsigned char*)&in->value; bytes = sizeof(int64_t);
  } else {
    lf_token_t* t = in->token;
    len = (int64_t)t->length; first = len ? *(uint64_t*)t->value : 0; h = hash_arr((int64_t*)t->value, len); buf = (unsigned char*)t->value; bytes = t->length * t->type->element_size;
  }
  net_ev(NET_SEND, R->net_id, lf_tag(), len, h, first, NEVER_TAG);
  environment_t* env = &env_main;
  if (n->physical) lf_send_message(MSG_TYPE_P2P_MESSAGE, (unsigned short)n->port_index, (unsigned short)n->dst_node, name, bytes, buf);
  else lf_send_tagged_message(env, net_delay(n), n->p2p ? MSG_TYPE_P2P_TAGGED_MESSAGE : MSG_TYPE_TAGGED_MESSAGE, (unsigned short)n->port_index, (unsigned short)n->dst_node, name, bytes, buf);
  net_ev(NET_SENT, R->net_id, lf_tag(), len, h, first, NEVER_TAG);
}
static void absent_sender_body(self_t* self, const sp_reaction* R) {
  (void)self;
  const sp_net* n = &P->nets[R->net_id];
  port_v* in = chan_v[P->ports[R->src[0]].first_chan];
  if (in->is_present) return;
  net_ev(NET_ABSENT, R->net_id, lf_tag(), 0, 0, 0, NEVER_TAG);
  lf_send_port_absent_to_federate(&env_main, net_delay(n), (unsigned short)n->port_index, (unsigned short)n->dst_node);
}
static int absent_index[MAXNET];
static void net_init_body(self_t* self, const sp_reaction* R) {
  for (int q = 0; q < P->n_reactions; q++)
    if (P->reactions[q].net_kind == 3 && P->reactions[q].net_id == R->net_id) port_absent_reaction[absent_index[R->net_id]] = &self->r[P->reactions[q].number];
  lf_enqueue_port_absent_reactions(&env_main);
}
static void net_receiver_body(self_t* self, const sp_reaction* R) {
  (void)self;
  const sp_net* n = &P->nets[R->net_id];
  trigger_t* tr = act_trig[n->action];
  act_t* a = act_struct[n->action];
  a->is_present = (bool)tr->status;
  a->has_value = (tr->tmplt.token != NULL && tr->tmplt.token->value != NULL);
  _lf_replace_template_token((token_template_t*)a, tr->tmplt.token);
  if (!a->is_present) return;
  if (!a->has_value) sim_fail("message", "a message arrived without its contents");
  a->token = tr->tmplt.token;
  int64_t* v = (int64_t*)a->token->value;
  size_t bytes = a->token->length;
  if (bytes % sizeof(int64_t) != 0) sim_fail("message", "the length of a message changed on its way");
  int64_t len = (int64_t)(bytes / sizeof(int64_t));
  tag_t it = NEVER_TAG;
#ifdef FEDERATED_DECENTRALIZED
  it = tr->intended_tag;
#endif
  net_ev(NET_RECV, R->net_id, lf_tag(), len, hash_arr(v, len), len ? (uint64_t)v[0] : 0, it);
  int out = P->ports[R->out[0]].first_chan;
#ifdef FEDERATED_DECENTRALIZED
  if (chan_itag[out] != NULL) *chan_itag[out] = tr->intended_tag;
#endif
  if (n->ptype == PT_V) {
    port_v* o = chan_v[out];
    lf_set(o, v[0]);
  } else {
    port_t_* o = (port_t_*)chan_v[out];
    if (n->fwd) {
      a->token->length /= sizeof(int64_t);
      lf_set_token(o, a->token);
    } else {
      int64_t* arr = (int64_t*)malloc(bytes ? bytes : 1);
      memcpy(arr, v, bytes);
      lf_set_array(o, arr, (size_t)len);
    }
  }
}

static int glue_fed_extra_present(void) { return 0; }
static void glue_fed_init(environment_t* env, int* np) {
  (void)env; (void)np;
  for (int i = 0; i < NUMBER_OF_FEDERATES; i++) { _fed.sockets_for_inbound_p2p_connections[i] = -1; _fed.sockets_for_outbound_p2p_connections[i] = -1; }
  int pin = 0, pout = 0, seen_in[NUMBER_OF_FEDERATES] = {0}, seen_out[NUMBER_OF_FEDERATES] = {0};
  for (int k = 0; k < P->n_nets; k++) {
    const sp_net* n = &P->nets[k];
    if (net_in(n)) {
      int i = n->port_index;
      act_t* a = act_struct[n->action];
      a->source_id = n->src_node;
      _lf_action_table[i] = (lf_action_base_t*)a;
      _lf_action_delay_table[i] = net_delay(n);
      if ((size_t)i + 1 > _lf_action_table_size) _lf_action_table_size = (size_t)i + 1;
      if (n->zdc) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = (lf_action_base_t*)a;
      network_input_reactions[num_network_input_reactions++] = act_trig[n->action]->reactions[0];
      if (!n->physical) _fed.has_upstream = true;
      if (n->p2p && !seen_in[n->src_node]++) pin++;
    }
    if (net_out(n)) {
      if (!n->physical) _fed.has_downstream = true;
      if (n->p2p && !seen_out[n->dst_node]++) pout++;
      for (int q = 0; q < P->n_reactions; q++)
        if (P->reactions[q].net_kind == 3 && P->reactions[q].net_id == k)
          absent_index[k] = (int)num_port_absent_reactions++;
    }
  }
  _fed.number_of_inbound_p2p_connections = (size_t)pin;
  _fed.number_of_outbound_p2p_connections = (size_t)pout;
  if (pin) _fed.inbound_socket_listeners = (lf_thread_t*)calloc((size_t)pin, sizeof(lf_thread_t));
  _fed.min_delay_from_physical_action_to_federate_output = sim_cfg_int("min_phys_out");
#ifdef FEDERATED_DECENTRALIZED
  /* sorted by STAA, one entry per distinct offset */
  for (int k = 0; k < P->n_nets; k++) {
    const sp_net* n = &P->nets[k];
    if (!net_in(n) || n->physical) continue;
    staa_t* s = NULL;
    for (size_t i = 0; i < staa_lst_size; i++) if (staa_lst[i]->STAA == n->staa) s = staa_lst[i];
    if (s == NULL) {
      s = (staa_t*)calloc(1, sizeof(staa_t));
      s->STAA = n->staa;
      s->actions = (lf_action_base_t**)calloc(MAXNET, sizeof(void*));
      size_t i = staa_lst_size++;
      while (i > 0 && staa_lst[i - 1]->STAA > s->STAA) { staa_lst[i] = staa_lst[i - 1]; i--; }
      staa_lst[i] = s;
    }
    s->actions[s->num_actions++] = (lf_action_base_t*)act_struct[n->action];
  }
  lf_fed_STA_offset = sim_cfg_int("sta");
#endif
}
/* reads the clock from time to time */
static void* sampler(void* arg) {
  while (1) { lf_sleep(sim_cfg_int("sample_ns")); lf_time_physical(); }
  return arg;
}
static void glue_fed_connect(environment_t* env) {
  _lf_my_fed_id = node_id;
  LF_MUTEX_INIT(&lf_outbound_socket_mutex);
  LF_COND_INIT(&lf_port_status_changed, &env->mutex);
  if (sim_cfg_int("p2p_server") || _fed.number_of_inbound_p2p_connections > 0) {
    /* the generated order: connect to the RTI, then offer a server for physical and peer-to-peer connections */
  }
  lf_connect_to_rti(federation_metadata.rti_host ? federation_metadata.rti_host : "localhost", federation_metadata.rti_port >= 0 ? federation_metadata.rti_port : 0);
#if LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT
  if (sim_cfg_int("clock_sync") > 1) {
    synchronize_initial_physical_clock_with_rti(&_fed.socket_TCP_RTI);
    sim_note(NOTE_SYNCED, 0, 0, 0);
    lf_thread_t t;
    lf_thread_create(&t, sampler, NULL);
  }
#endif
  if (_fed.number_of_inbound_p2p_connections > 0) {
    lf_create_server(0);
    lf_thread_create(&_fed.inbound_p2p_handling_thread_id, lf_handle_p2p_connections_from_federates, env);
  }
  int done[NUMBER_OF_FEDERATES] = {0};
  for (int k = 0; k < P->n_nets; k++) {
    const sp_net* n = &P->nets[k];
    if (net_out(n) && n->p2p && !done[n->dst_node]++) lf_connect_to_federate((uint16_t)n->dst_node);
  }
}
void lf_send_neighbor_structure_to_RTI(int rti_socket) {
  unsigned char buf[1 + 8 + MAXNET * 12];
  int up[NUMBER_OF_FEDERATES] = {0}, down[NUMBER_OF_FEDERATES] = {0};
  int64_t delay[NUMBER_OF_FEDERATES];
  int nu = 0, nd = 0;
  for (int k = 0; k < P->n_nets; k++) {
    const sp_net* n = &P->nets[k];
    if (n->p2p) continue;
    if (net_in(n)) {
      if (!up[n->src_node]++) { nu++; delay[n->src_node] = net_delay(n); }
      else if (net_delay(n) < delay[n->src_node]) delay[n->src_node] = net_delay(n);
    }
    if (net_out(n) && !down[n->dst_node]++) nd++;
  }
  size_t pos = 0;
  buf[pos++] = MSG_TYPE_NEIGHBOR_STRUCTURE;
  encode_int32(nu, buf + pos); pos += sizeof(int32_t);
  encode_int32(nd, buf + pos); pos += sizeof(int32_t);
  for (int f = 0; f < NUMBER_OF_FEDERATES; f++)
    if (up[f]) {
      encode_uint16((uint16_t)f, buf + pos); pos += sizeof(uint16_t);
      encode_int64(delay[f], buf + pos); pos += sizeof(int64_t);
    }
  for (int f = 0; f < NUMBER_OF_FEDERATES; f++)
    if (down[f]) { encode_uint16((uint16_t)f, buf + pos); pos += sizeof(uint16_t); }
  write_to_socket_fail_on_error(&rti_socket, pos, buf, NULL, "Failed to send the neighbor structure to the RTI.");
}
