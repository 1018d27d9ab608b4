# Per property: which scenarios decide it, which violation classes count for it, and for how long.
REAL = ['all FlashMQ sources of /repo (listeners, TLS, websocket and HAProxy code, MQTT parser, worker threads, timers, session and subscription stores, retained tree, persistence files, background worker, plugin loader, configuration parser, logger)', 'OpenSSL on both ends']
STUB = ['kernel sockets, epoll, eventfd, clocks, DNS, files and directories (deterministic model)', 'pthread primitives (real threads, one runs at a time, chosen by the seeded scheduler)', 'MQTT clients, remote brokers and plugins (part of the harness)']
ALWAYS = ['crash', 'hang', 'stuck', 'memory', 'start', 'shutdown', 'wire']
def C(*a): return list(a) + ALWAYS
PROPS = {
 'C01': dict(scen='mix_loss:3,mix_content:1,mix_route:1', classes=C('loss', 'answer', 'session', 'close', 'limits', 'duplicate', 'routing', 'order', 'content')),
 'C02': dict(scen='mix_loss:3,mix_content:1,mix_route:1', classes=C('duplicate', 'answer', 'limits', 'loss', 'close')),
 'C03': dict(scen='mix_loss:2,mix_content:1,mix_route:1', classes=C('order', 'answer', 'loss', 'duplicate')),
 'C04': dict(scen='mix_route:3,mix_loss:1,mix_content:1', classes=C('routing', 'loss', 'answer', 'duplicate', 'forbidden', 'close', 'content')),
 'C05': dict(scen='mix_content:2,mix_limits:1,mix_route:1', classes=C('content', 'retain', 'expiry', 'limits', 'close', 'answer', 'loss', 'routing')),
 'C06': dict(scen='mix_retain', classes=C('retain', 'content', 'loss', 'duplicate', 'answer', 'limits', 'close')),
 'C07': dict(scen='mix_session:3,mix_expiry:1', classes=C('session', 'answer', 'close', 'loss', 'duplicate', 'routing', 'order')),
 'C08': dict(scen='mix_will', classes=C('will', 'content', 'loss', 'duplicate', 'routing', 'answer', 'close', 'session')),
 'C09': dict(scen='mix_expiry:3,mix_retain:1', classes=C('expiry', 'content', 'loss', 'answer', 'close', 'session')),
 'C10': dict(scen='mix_limits', classes=C('limits', 'loss', 'content', 'answer', 'close', 'duplicate', 'order')),
 'C11': dict(scen='keepalive', classes=C('keepalive', 'close', 'will', 'loss', 'routing', 'answer', 'forbidden')),
 'C12': dict(scen='restart:3,restart_wills:2', classes=C('loss', 'duplicate', 'order', 'content', 'routing', 'retain', 'session', 'expiry', 'will', 'forbidden', 'answer', 'close', 'start', 'shutdown')),
 'C13': dict(scen='crash', classes=C('loss', 'duplicate', 'session', 'content', 'answer', 'close')),
 'C17': dict(scen='mix_frame:2,frame_edge:2,frame_idle:2', classes=C('loss', 'order', 'content', 'duplicate', 'answer', 'close', 'limits', 'routing', 'session')),
 'C21': dict(scen='mix_slow', classes=C('loss', 'order', 'content', 'duplicate', 'answer', 'close', 'limits')),
}
