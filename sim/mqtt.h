// MQTT codec and simulated client.
#pragma once
#include "sim.h"
#include <optional>
namespace sim {
enum { CONNECT=1,CONNACK,PUBLISH,PUBACK,PUBREC,PUBREL,PUBCOMP,SUBSCRIBE,SUBACK,UNSUBSCRIBE,UNSUBACK,PINGREQ,PINGRESP,DISCONNECT,AUTH };
extern const char* ptype_names[16];
struct MProps {
  std::optional<u8> payload_format, req_problem, req_response, max_qos, retain_avail, wildcard_avail, subid_avail, shared_avail;
  std::optional<u16> server_keepalive, recv_max, alias_max, alias;
  std::optional<u32> expiry, sess_expiry, will_delay, max_packet;
  std::optional<std::string> content_type, response_topic, corr, assigned_id, auth_method, auth_data, response_info, server_ref, reason;
  std::vector<u32> sub_ids; std::vector<std::pair<std::string,std::string>> user;
  std::string enc() const; // with length prefix
};
struct Packet { int type=0, flags=0; u16 id=0; std::string topic,payload; int qos=0; bool retain=false,dup=false; int reason=0; std::vector<int> reasons; bool session_present=false; MProps p; size_t size=0; u64 seq=0; u64 at=0; bool alias_resolved=false; bool has_reason=false; };
std::string enc_varint(u32 v);
std::string enc_str(const std::string&s);
std::string enc_u16(u16 v);
std::string frame(int type,int flags,const std::string&body);
struct Will { std::string topic,payload; int qos=0; bool retain=false; MProps p; };
struct ConnectOpts { int ver=4; std::string id; bool clean=true; u16 keepalive=60; std::optional<std::string> user,pass; std::optional<Will> will; MProps p; };
std::string enc_connect(const ConnectOpts&);
struct Sub { std::string filter; int qos=0; bool nolocal=false, rap=false; int rh=0; };
std::string enc_subscribe(int ver,u16 id,const std::vector<Sub>&,std::optional<u32> subid={});
std::string enc_unsubscribe(int ver,u16 id,const std::vector<std::string>&);
std::string enc_publish(int ver,const std::string&topic,const std::string&payload,int qos,bool retain,bool dup,u16 id,const MProps&p);
std::string enc_ack(int ver,int type,u16 id,int reason=0,bool force_reason=false);
std::string enc_disconnect(int ver,int reason=0,const MProps*p=nullptr);
std::string enc_auth(int reason,const MProps&p);
// strict parser of what the broker sends. returns 1 packet, 0 need more, -1 malformed
int parse_packet(const std::string&buf,size_t&used,int ver,Packet&out,std::string&err,bool from_client=false);
bool topic_matches(const std::string&filter,const std::string&topic);

enum Transport { TR_TCP, TR_WS, TR_HAPROXY, TR_TLS, TR_WSS };
struct TlsState;
struct MqttConn { // one network connection speaking MQTT
  ConnP c; int ver=4; Transport tr=TR_TCP; std::string in, mq; bool ws_up=false, hap_sent=false; std::string ws_pending; bool open=false, closed=false; int closed_how=0; u64 opened_at=0, closed_at=0;
  std::function<void(Packet&)> on_packet; std::function<void()> on_open, on_close; std::function<void(const std::string&)> on_malformed;
  int ws_frame_mode=0; Rng r; std::map<u16,std::string> aliases; u64 last_rx=0, last_tx=0; u64 rxbytes=0; bool paused=false; bool no_parse=false; std::string raw; std::string haproxy_line; std::string ws_ping_outstanding; int ws_pongs=0; bool ws_closed=false; std::string wsmsg;
  std::shared_ptr<TlsState> tls; bool trickle=false; u64 gap_max=0; std::string gapq; bool gap_busy=false; u64 sent_seq=0; size_t closed_unparsed=0;
  ~MqttConn();
};
typedef std::shared_ptr<MqttConn> MC;
std::string haproxy_v2(const std::string&ip,size_t extra,Rng&r,const std::string*cn=nullptr);
MC mc_open(const std::string&ip,int port,int ver,Transport tr,u64 rseed,const std::string&my_ip="10.9.0.1");
void mc_send(const MC&,const std::string&bytes);
void mc_close(const MC&);   // FIN
void mc_reset(const MC&);
void mc_vanish(const MC&);
void mc_pause(const MC&,bool);
}
