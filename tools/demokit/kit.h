// small helpers for demonstrations: a server in a thread, clients over unix or inet sockets
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <pthread.h>
#include <stdatomic.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "gracht/server.h"
#include "gracht/client.h"
#include "gracht/link/socket.h"
#include "dm_demo_service_server.h"
#include "dm_demo_service_client.h"
static void kfail(const char* m) { printf("FAIL: %s\n", m); fflush(stdout); _exit(1); }
static void kerr(const char* m) { printf("ERROR: %s (%d)\n", m, errno); fflush(stdout); _exit(9); }
static void kok(void) { printf("OK\n"); fflush(stdout); _exit(0); }
static void onalarm(int s) { (void)s; static const char m[] = "FAIL: hang\n"; write(1, m, sizeof m - 1); _exit(1); }
static void kdeadline(int s) { signal(SIGALRM, onalarm); signal(SIGPIPE, SIG_DFL); alarm(s); }
static void ksleep(int ms) { struct timespec t = { ms / 1000, (ms % 1000) * 1000000L }; nanosleep(&t, NULL); }
static socklen_t kaddr_unix(struct sockaddr_storage* s, const char* name) { struct sockaddr_un* u = (struct sockaddr_un*)s; memset(s, 0, sizeof *s); u->sun_family = AF_UNIX; snprintf(u->sun_path, sizeof u->sun_path, "./%s", name); return sizeof *u; }
static gracht_server_t* kserver(int workers, int maxmsg, void (*conn)(gracht_conn_t), void (*disc)(gracht_conn_t)) {
    gracht_server_configuration_t c; gracht_server_t* s;
    gracht_server_configuration_init(&c); if (workers) gracht_server_configuration_set_num_workers(&c, workers); if (maxmsg) gracht_server_configuration_set_max_msg_size(&c, maxmsg);
    c.callbacks.clientConnected = conn; c.callbacks.clientDisconnected = disc;
    if (gracht_server_create(&c, &s)) kerr("server create");
    gracht_server_register_protocol(s, &dm_demo_server_protocol);
    return s;
}
static int klink(gracht_server_t* s, const char* name, int packet) {
    struct gracht_link_socket* l; struct sockaddr_storage a; socklen_t n = kaddr_unix(&a, name);
    gracht_link_socket_create(&l); gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based); gracht_link_socket_set_listen(l, 1);
    gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, n);
    return gracht_server_add_link(s, (struct gracht_link*)l);
}
static void* kloop(void* s) { gracht_server_main_loop(s); return NULL; }
static pthread_t kstart(gracht_server_t* s) { pthread_t t; pthread_create(&t, NULL, kloop, s); return t; }
static gracht_client_t* kclient(const char* name, int packet, int maxmsg) {
    gracht_client_configuration_t c; struct gracht_link_socket* l; struct sockaddr_storage a; socklen_t n = kaddr_unix(&a, name); gracht_client_t* cl;
    gracht_link_socket_create(&l); gracht_link_socket_set_type(l, packet ? gracht_link_packet_based : gracht_link_stream_based);
    gracht_link_socket_set_domain(l, AF_UNIX); gracht_link_socket_set_address(l, &a, n);
    gracht_client_configuration_init(&c); gracht_client_configuration_set_link(&c, (struct gracht_link*)l); if (maxmsg) gracht_client_configuration_set_max_msg_size(&c, maxmsg);
    if (gracht_client_create(&c, &cl)) kerr("client create"); if (gracht_client_connect(cl)) { printf("connect failed %d\n", errno); return NULL; }
    gracht_client_register_protocol(cl, &dm_demo_client_protocol);
    return cl;
}
// an echo call that must succeed and return what was sent; returns 0 when it did
static int kecho(gracht_client_t* c, uint32_t uid, uint32_t n) {
    struct gracht_message_context x; uint8_t d[8192], r[8192]; uint32_t ruid = 0; memset(d, (int)uid, sizeof d); memset(r, 0, sizeof r);
    if (dm_demo_echo(c, &x, uid, d, n)) return -1;
    if (gracht_client_await(c, &x, GRACHT_AWAIT_ALL)) return -2;
    int st = dm_demo_echo_result(c, &x, &ruid, r, sizeof r); if (st < 0) return -3;
    return ruid == uid && !memcmp(d, r, n) ? 0 : -4;
}
static int krawconn(const char* name) { struct sockaddr_storage a; socklen_t n = kaddr_unix(&a, name); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (connect(s, (struct sockaddr*)&a, n)) kerr("raw connect"); return s; }
static int kframe(uint8_t* f, uint32_t id, uint8_t sid, uint8_t aid, uint8_t flags, const void* body, uint32_t n) { uint32_t l = 11 + n; memcpy(f, &id, 4); memcpy(f + 4, &l, 4); f[8] = sid; f[9] = aid; f[10] = flags; memcpy(f + 11, body, n); return (int)l; }
// handlers, overridable by defining KCUSTOM_<name> before including this file
#ifndef KCUSTOM_echo
void dm_demo_echo_invocation(struct gracht_message* m, const uint32_t uid, const uint8_t* data, const uint32_t n) { dm_demo_echo_response(m, uid, data, n); }
#endif
#ifndef KCUSTOM_slow
void dm_demo_slow_invocation(struct gracht_message* m, const uint32_t uid, const uint32_t ms) { ksleep((int)ms); dm_demo_slow_response(m, uid); }
#endif
#ifndef KCUSTOM_post
void dm_demo_post_invocation(struct gracht_message* m, const uint32_t uid, const uint8_t* data, const uint32_t n) { (void)m; }
#endif
#ifndef KCUSTOM_later
void dm_demo_later_invocation(struct gracht_message* m, const uint32_t uid, const uint8_t* data, const uint32_t n) { dm_demo_later_response(m, uid); }
#endif
#ifndef KCUSTOM_note
void dm_demo_event_note_invocation(gracht_client_t* c, const uint32_t uid, const uint8_t* data, const uint32_t n) { }
#endif
