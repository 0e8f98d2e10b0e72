// Hand-written C++ view of the code the repository's generator produces for proto/*.gr
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
#include "gracht/types.h"
#include "gracht/client.h"
#include "gracht/server.h"
#include "gracht/link/socket.h"
struct wl_item { uint32_t a; int64_t b; };
struct wl_record { uint32_t uid; char* text; uint32_t blob_count; uint8_t* blob; uint32_t items_count; struct wl_item* items; uint8_t flag; };
#define WL_SVC(S) \
 int wl_##S##_subscribe(gracht_client_t*, gracht_message_context*); int wl_##S##_unsubscribe(gracht_client_t*, gracht_message_context*); \
 int wl_##S##_echo(gracht_client_t*, gracht_message_context*, const uint32_t, const uint8_t*, const uint32_t); \
 int wl_##S##_echo_result(gracht_client_t*, gracht_message_context*, uint32_t*, uint8_t*, const uint32_t); \
 int wl_##S##_echo_response(gracht_message*, uint32_t, uint8_t*, uint32_t); \
 int wl_##S##_event_note_single(gracht_server_t*, const gracht_conn_t, const uint32_t, const uint32_t, const uint32_t, const uint8_t*, const uint32_t); \
 int wl_##S##_event_note_all(gracht_server_t*, const uint32_t, const uint32_t, const uint32_t, const uint8_t*, const uint32_t); \
 extern gracht_protocol_t wl_##S##_client_protocol, wl_##S##_server_protocol;
#define WL_POST(S) \
 int wl_##S##_post(gracht_client_t*, gracht_message_context*, const uint32_t, const uint8_t*, const uint32_t);
WL_SVC(alpha) WL_SVC(beta) WL_SVC(gamma) WL_SVC(delta) WL_POST(alpha) WL_POST(beta) WL_POST(gamma)
int wl_delta_post(gracht_client_t*, gracht_message_context*, const uint32_t, const uint8_t*, const uint32_t, const uint8_t*, const uint32_t);
int wl_alpha_put(gracht_client_t*, gracht_message_context*, const wl_record*, const char*);
int wl_alpha_tick(gracht_client_t*, gracht_message_context*);
int wl_alpha_tick_result(gracht_client_t*, gracht_message_context*, uint32_t*, uint64_t*);
int wl_alpha_tick_response(gracht_message*, uint32_t, uint64_t);
int wl_alpha_put_result(gracht_client_t*, gracht_message_context*, wl_record*, char*, const uint32_t);
int wl_alpha_later(gracht_client_t*, gracht_message_context*, const uint32_t, const uint8_t*, const uint32_t);
int wl_alpha_later_result(gracht_client_t*, gracht_message_context*, uint32_t*, uint8_t*, const uint32_t);
int wl_alpha_fan(gracht_client_t*, gracht_message_context*, const uint32_t, const uint32_t);
int wl_alpha_fan_result(gracht_client_t*, gracht_message_context*, uint32_t*);
int wl_alpha_many(gracht_client_t*, gracht_message_context*, const wl_record*, const uint32_t);
int wl_alpha_many_result(gracht_client_t*, gracht_message_context*, wl_record*, const uint32_t);
int wl_alpha_put_response(gracht_message*, wl_record*, char*);
int wl_alpha_later_response(gracht_message*, uint32_t, uint8_t*, uint32_t);
int wl_alpha_fan_response(gracht_message*, uint32_t);
int wl_alpha_many_response(gracht_message*, wl_record*, uint32_t);
int wl_alpha_event_rec_single(gracht_server_t*, const gracht_conn_t, const wl_record*);
int wl_alpha_event_rec_all(gracht_server_t*, const wl_record*);
// proto/glue.c: function and event that carry every type of the interface language
uint32_t wlx_expected(uint32_t uid, uint32_t salt, uint32_t size, int ev, char* buf, uint32_t cap);
int wlx_call(gracht_client_t*, gracht_message_context*, uint32_t uid, uint32_t salt, uint32_t size);
int wlx_result(gracht_client_t*, gracht_message_context*, uint32_t uid, uint32_t salt, uint32_t size, int small, uint32_t* ruid, char* buf, uint32_t cap, uint32_t* len, char* wbuf, uint32_t* wlen);
int wlx_respond(gracht_message*, uint32_t uid, uint32_t salt, uint32_t size);
int wlx_event(gracht_server_t*, int all, gracht_conn_t, uint32_t uid, uint32_t salt, uint32_t size);
// library functions that the generated code itself uses
int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
int gracht_client_invoke(gracht_client_t*, gracht_message_context*, gracht_buffer_t*);
int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
int gracht_server_respond(gracht_message*, gracht_buffer_t*);
int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int);
}
