#pragma once
#include "sim.h"
void net_partition(Node *n, i64 dur);
int net_connections(Node *n);
bool net_reset_between(Node *n, Node *m);
int net_listen_port(Node *n);
extern std::map<int, u64> net_conn_order;         // when each node has last connected to the port of the coordinator
bool net_reset_conn(Node *n, int idx);
// clock synchronisation (csync.cpp)
void cs_start(int nf, Node *rti);
bool cs_udp_faults();
void cs_slow_write();
void cs_fed_start(i64 tag);
void cs_tcp(int to);
void cs_synced(Node *n);
void cs_reading(Node *n, i64 v, i64 raw0, i64 raw1, i64 sim0);
i64 cs_off_max(Node *n);
void cs_dgram(Node *from, Node *to, const std::string &d, bool arrived);
void cs_tick(int nf);
void cs_check(int nf, i64 start, i64 stop);
extern i64 cs_udp_max, cs_tcp_max; extern bool cs_active;
extern u64 net_bytes, net_segs;
