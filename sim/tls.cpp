// TLS for simulated clients: OpenSSL over memory buffers (real handshake against the broker's real TLS code).
#include "tls.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
namespace sim {
struct TlsState { SSL*ssl=nullptr; BIO*in=nullptr,*out=nullptr; std::string pend; bool hs=false; ~TlsState(){ if(ssl) SSL_free(ssl); } };
static SSL_CTX* cctx(){ static SSL_CTX*c=nullptr; if(!c){ c=SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(c,SSL_VERIFY_NONE,nullptr); SSL_CTX_set_session_cache_mode(c,SSL_SESS_CACHE_OFF);} return c; }
void tls_init(const MC&m){ m->tls=std::make_shared<TlsState>(); auto&t=*m->tls; t.ssl=SSL_new(cctx()); t.in=BIO_new(BIO_s_mem()); t.out=BIO_new(BIO_s_mem()); SSL_set_bio(t.ssl,t.in,t.out); SSL_set_connect_state(t.ssl); }
static void flush(const MC&m){ char b[16384]; int n; while((n=BIO_read(m->tls->out,b,sizeof b))>0) net_send(m->c,0,std::string(b,n)); }
static void step(const MC&m){ auto&t=*m->tls; if(!t.hs){ ERR_clear_error(); int r=SSL_do_handshake(t.ssl); if(r==1){ t.hs=true; S.probe("tls_handshake"); } else { int e=SSL_get_error(t.ssl,r); flush(m); if(e!=SSL_ERROR_WANT_READ&&e!=SSL_ERROR_WANT_WRITE){ ERR_clear_error(); if(m->on_malformed) m->on_malformed("tls handshake failed"); } return; } }
  if(!t.pend.empty()){ ERR_clear_error(); SSL_write(t.ssl,t.pend.data(),t.pend.size()); t.pend.clear(); } flush(m); ERR_clear_error(); }
void tls_start(const MC&m){ step(m); }
void tls_send(const MC&m,const std::string&d){ m->tls->pend+=d; step(m); }
void tls_feed(const MC&m,const std::string&d){ auto keep=m->tls; BIO_write(keep->in,d.data(),d.size()); step(m); if(!keep->hs) return; char b[16384]; int n; while(ERR_clear_error(),(n=SSL_read(keep->ssl,b,sizeof b))>0){ mc_feed_plain(m,std::string(b,n)); if(m->closed) return; } int e=SSL_get_error(keep->ssl,n); if(e==SSL_ERROR_SSL){ ERR_clear_error(); violation("wire","corrupt TLS stream from the broker"); } ERR_clear_error(); flush(m); }
}
