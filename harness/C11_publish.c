//@ property C11
//@ proof p_handle unwind=2 native=0 funcs=rrr_mqtt_common_handle_publish
#include "vf.h"
#include "rrr_types.h"
#include "log.h"
#include "net_transport/net_transport.h"
#include "net_transport/net_transport_defines.h"
#include "net_transport/net_transport_struct.h"
#include "net_transport/net_transport_ctx.h"
#include "mqtt/mqtt_topic.h"
#include "mqtt/mqtt_acl.h"
#include "mqtt/mqtt_packet.h"
#include "mqtt/mqtt_connection.h"
#include "mqtt/mqtt_session.h"
#include "mqtt/mqtt_common.h"
#ifdef VF_PROOF
static struct rrr_mqtt_conn g_c; static struct rrr_mqtt_p_publish g_p; static int g_acl, g_acl_n, g_recv, g_sent; static uint8_t g_reason;
static struct rrr_mqtt_p_puback *g_ack; static int g_ack_type;
static int acl_cb(struct rrr_mqtt_conn *c, struct rrr_mqtt_p *p, void *arg) { CALLEE_PRE("packet and connection", c == &g_c && p == (void *) &g_p && !g_recv); g_acl_n++; return g_acl; }
static int recv_cb(struct rrr_mqtt_session_collection *collection, struct rrr_mqtt_session **session, struct rrr_mqtt_p *packet, unsigned int *n) { g_recv++; CALLEE_PRE("only packets which the access list allows are delivered", g_acl_n == 1 && g_acl == RRR_MQTT_ACL_RESULT_ALLOW && packet == (void *) &g_p); return nondet_u32(); }
static int send_cb(struct rrr_mqtt_session_collection *collection, struct rrr_mqtt_session **session, struct rrr_mqtt_p *packet, int (*cb)(struct rrr_mqtt_p *packet, void *arg), void *arg) { g_sent++; g_reason = g_ack_type == RRR_MQTT_P_TYPE_PUBACK ? ((struct rrr_mqtt_p_puback *) packet)->reason_v5 : ((struct rrr_mqtt_p_pubrec *) packet)->reason_v5; return nondet_u32(); }
void *rrr_net_transport_ctx_get_application_private_ptr(struct rrr_net_transport_handle *h) { return &g_c; }
static union { struct rrr_mqtt_p_puback a; struct rrr_mqtt_p_pubrec r; } g_ackmem;
struct rrr_mqtt_p *rrr_mqtt_p_allocate(uint8_t type, const struct rrr_mqtt_p_protocol_version *v) { g_ack_type = type; return nondet_bool() ? (void *) &g_ackmem : NULL; }
/* reference counting and reading of properties by contract: a refusal gives its reason */
void rrr_mqtt_p_usercount_incref(struct rrr_mqtt_p_usercount *p) { }
void rrr_mqtt_p_usercount_decref(struct rrr_mqtt_p_usercount *p) { }
int rrr_mqtt_property_collection_iterate(const struct rrr_mqtt_property_collection *c, int (*cb)(const struct rrr_mqtt_property_collection *, const struct rrr_mqtt_property *, void *), void *arg) {
	struct rrr_mqtt_common_handle_properties_data *d = arg;
	CALLEE_PRE("properties of the packet", c == &g_p.properties);
	if (nondet_bool()) return 0;
	d->reason_v5 = nondet_u8(); ASSUME(d->reason_v5 != 0);
	return nondet_bool() ? RRR_MQTT_SOFT_ERROR : RRR_MQTT_INTERNAL_ERROR;
}
#endif
#include "mqtt/mqtt_common.c"
void p_handle(void) {
#ifdef VF_PROOF
	static struct rrr_mqtt_data d; static struct rrr_mqtt_session_collection s; static struct rrr_mqtt_session_collection_methods m;
	static struct rrr_mqtt_p_type_properties tp; static struct rrr_mqtt_p_protocol_version v;
	__CPROVER_havoc_object(&g_c); g_p.type_flags = nondet_u8(); g_p.reason_v5 = nondet_u8(); g_p.packet_identifier = nondet_u16();
	m.receive_packet = recv_cb; m.send_packet_now = send_cb; s.methods = &m; d.sessions = &s; d.acl_handler = acl_cb; g_p.type_properties = &tp; g_p.protocol_version = &v; g_acl = nondet_u32();
	REQUIRES(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(&g_p) <= 2);
	int r = rrr_mqtt_common_handle_publish(&d, (void *) &v, (struct rrr_mqtt_p *) &g_p);
	ENSURES("never delivered unless allowed", !g_recv || (g_acl_n == 1 && g_acl == RRR_MQTT_ACL_RESULT_ALLOW));
	ENSURES("a denied message is acknowledged as not authorized", !(g_acl_n && g_acl == RRR_MQTT_ACL_RESULT_DENY && g_sent) || g_reason == RRR_MQTT_P_5_REASON_NOT_AUTHORIZED);
	ENSURES("the connection is closed if the list says so", !(g_acl_n && g_acl != RRR_MQTT_ACL_RESULT_DENY && g_acl != RRR_MQTT_ACL_RESULT_ALLOW) || (r & RRR_MQTT_SOFT_ERROR));
	VF_REACH("handle end");
#endif
}
