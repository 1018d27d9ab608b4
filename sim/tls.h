#pragma once
#include "mqtt.h"
namespace sim { void tls_init(const MC&); void tls_start(const MC&); void tls_send(const MC&,const std::string&); void tls_feed(const MC&,const std::string&); void mc_feed_plain(const MC&,const std::string&); }
