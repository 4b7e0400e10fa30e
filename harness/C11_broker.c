//@ property C11
//@ proof p_publish unwind=2 native=0 funcs=__rrr_mqtt_broker_acl_handler_publish,__rrr_mqtt_broker_acl_handler
//@ proof p_subscribe unwind=2 native=0 funcs=__rrr_mqtt_broker_acl_handler_subscribe
#include "vf.h"
#include "rrr_types.h"
#include "log.h"
#include "mqtt/mqtt_topic.h"
#include "mqtt/mqtt_acl.h"
#include "mqtt/mqtt_broker.h"
#include "mqtt/mqtt_subscription.h"
#include "mqtt/mqtt_packet.h"
#include "mqtt/mqtt_connection.h"
#ifdef VF_PROOF
static struct rrr_mqtt_broker_data g_b; static struct rrr_mqtt_conn g_c; static struct rrr_mqtt_subscription g_s, g_s2;
static const struct rrr_mqtt_topic_token *g_tok; static int g_access, g_acl_ret, g_calls; static void *g_match;
int rrr_mqtt_acl_check_access(const struct rrr_mqtt_acl *a, const struct rrr_mqtt_topic_token *t, int level, const char *user, int (*m)(const struct rrr_mqtt_topic_token *x, const struct rrr_mqtt_topic_token *y)) {
	CALLEE_PRE("the broker's list, the packet's topic, the user of the connection and the access needed", a == g_b.acl && t == g_tok && level == g_access && user == g_c.username && (void *) m == g_match);
	g_calls++; return g_acl_ret;
}
#endif
#include "mqtt/mqtt_broker.c"
#ifdef VF_PROOF
static void any_sub(void) { g_s.ptr_next = nondet_bool() ? &g_s2 : NULL; g_s.qos_or_reason_v5 = nondet_u8(); g_acl_ret = nondet_u32(); g_calls = 0; }
#endif
VF_LOOP(__rrr_mqtt_broker_acl_handler_subscribe, 0,
	ptr(node, =(nondet_bool() ? (any_sub(), &g_s) : NULL)); ptr(next, =NULL); ptr(prev, =NULL); var(g_calls);
	pre(__CPROVER_assert(node == subscribe->subscriptions->ptr_first, "ENSURES starts with the first subscription")); inv(no early end, !linked_list_iterate_stop && !linked_list_immediate_break && !linked_list_reverse);
	snap(uint8_t, o_q, g_s.qos_or_reason_v5);
	step(next subscription, node == g_s.ptr_next && g_calls == 1);
	step(refused unless allowed, g_s.qos_or_reason_v5 == (g_acl_ret == RRR_MQTT_ACL_RESULT_ALLOW ? o_q : RRR_MQTT_P_5_REASON_NOT_AUTHORIZED));
	noframe())
void p_publish(void) {
#ifdef VF_PROOF
	static struct rrr_mqtt_p_publish p; static struct rrr_mqtt_p_type_properties tp; static struct rrr_mqtt_p_protocol_version v;
	p.type_properties = &tp; p.protocol_version = &v; v.id = nondet_u8(); tp.type_id = nondet_u8(); g_b.disconnect_on_v31_publish_deny = nondet_u32(); g_b.acl = (void *) &g_s; g_c.username = nondet_bool() ? (char *) &g_s2 : NULL;
	REQUIRES(tp.type_id != RRR_MQTT_P_TYPE_SUBSCRIBE);
	p.token_tree_ = (void *) &v; g_tok = p.token_tree_; g_access = RRR_MQTT_ACL_ACTION_RW; g_match = (void *) rrr_mqtt_topic_match_tokens_recursively; g_acl_ret = nondet_bool() ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY;
	int r = __rrr_mqtt_broker_acl_handler(&g_c, (struct rrr_mqtt_p *) &p, &g_b);
	if (tp.type_id == RRR_MQTT_P_TYPE_PUBLISH) {
		ENSURES("allowed exactly when the list gives write access", g_calls == 1 && (r == RRR_MQTT_ACL_RESULT_ALLOW) == (g_acl_ret == RRR_MQTT_ACL_RESULT_ALLOW));
		ENSURES("denied or disconnected otherwise", r == RRR_MQTT_ACL_RESULT_ALLOW || r == (v.id != RRR_MQTT_VERSION_5 && g_b.disconnect_on_v31_publish_deny ? RRR_MQTT_ACL_RESULT_DISCONNECT : RRR_MQTT_ACL_RESULT_DENY));
	} else ENSURES("other packets need no access", r == RRR_MQTT_ACL_RESULT_ALLOW && g_calls == 0);
	VF_REACH("publish end");
#endif
}
void p_subscribe(void) {
#ifdef VF_PROOF
	static struct rrr_mqtt_p_subscribe p; static struct rrr_mqtt_subscription_collection l; static char filter[1], id[1];
	static struct rrr_mqtt_p_type_properties tp; p.type_properties = &tp; tp.type_id = RRR_MQTT_P_TYPE_SUBSCRIBE;
	p.subscriptions = &l; l.ptr_first = nondet_bool() ? &g_s2 : NULL; g_b.acl = (void *) &g_s; g_c.username = nondet_bool() ? (char *) &g_s2 : NULL; g_c.client_id = id;
	g_s.token_tree = (void *) &l; g_s.topic_filter = filter; g_tok = g_s.token_tree; g_access = RRR_MQTT_ACL_ACTION_RO; g_match = (void *) rrr_mqtt_topic_match_tokens_recursively_acl;
	int r = __rrr_mqtt_broker_acl_handler(&g_c, (struct rrr_mqtt_p *) &p, &g_b);
	ENSURES("the packet itself is allowed", r == RRR_MQTT_ACL_RESULT_ALLOW);
	VF_REACH("subscribe end");
#endif
}
