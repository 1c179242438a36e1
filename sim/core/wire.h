#pragma once
#include "sim.h"
#include "prog.h"
#include <string>
// One message of the federated protocol, recorded when its header has been written to a connection.
enum { W_REJECT, W_FED_IDS, W_TIMESTAMP, W_MESSAGE, W_RESIGN, W_TAGGED, W_NET, W_TAG, W_PTAG, W_LTC, W_STOP_REQ, W_STOP_REPLY, W_STOP_GRANT, W_ADDR_QUERY, W_ADDR_REPLY, W_ADDR_AD, W_P2P_ID, W_P2P_MSG, W_P2P_TAGGED, W_T1, W_T3, W_T4, W_PROBE, W_ABSENT, W_NEIGH, W_FAILED };
struct WireEv { int from, to, type; Tag tag; int port, fed; u32 len; u64 seq; i64 sim; };   // tag: absolute time; from/to: node ids
struct WireParse { std::string b; size_t skip = 0; bool bad = false; int port = -1; };
extern std::vector<WireEv> wire;
struct Arrival { i64 head, full = 0x7fffffffffffffffl; Tag known; };   // known: up to which tag the sender had told about the port before this message
extern std::map<std::pair<int, int>, std::vector<Arrival>> arrivals;   // (receiver, port) -> when the headers and the last bytes of its direct messages were there
void wire_arrived(WireParse &p, int from, int to, const char *d, size_t n);
void wire_feed(WireParse &p, int from, int to, const char *d, size_t n);
