// A WebSocket peer: HTTP upgrade, frames in, frames out.
#pragma once
#include "ref.hpp"
inline Bytes wsRequest(const char *proto = "mqtt") { return Bytes("GET /mqtt HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: ") + proto + "\r\n\r\n"; }
// form: 0 minimal, 1 16-bit, 2 64-bit length
inline Bytes wsFrame(unsigned first, const Bytes &payload, const Bytes &key, int form = 0) { Bytes r; p8(r, first); unsigned m = key.empty() ? 0 : 128; size_t n = payload.size(); if (form == 0) form = n < 126 ? 0 : n < 65536 ? 1 : 2; if (form == 0) p8(r, m | n); else if (form == 1) { p8(r, m | 126); p16(r, n); } else { p8(r, m | 127); p32(r, 0); p32(r, n); } r += key; for (size_t i = 0; i < n; i++) r += key.empty() ? payload[i] : (char)(payload[i] ^ key[i % 4]); return r; }
inline Bytes symKey() { return fsx_choice("masked", 2) ? symBytes("key", 4) : Bytes(); }
struct WsConn {
    World *w = nullptr; int fd = -1, ver = V5; size_t used = 0; bool upgraded = false; Bytes head, mqtt; size_t mused = 0; std::vector<OutPkt> pk; std::vector<Bytes> pongs; std::vector<size_t> frames;
    void open(World &ww, int v) { w = &ww; ver = v; fd = ww.open(0, ConnectionProtocol::WebsocketMqtt); }
    void feed(const Bytes &b) { if (env_is_open(fd)) env_feed(fd, b.data(), b.size()); }
    void raw(const Bytes &b) { feed(b); w->pump(); poll(); }
    bool isOpen() const { return env_is_open(fd); }
    void upgrade() { raw(wsRequest()); CHECK(upgraded && head.substr(0, 12) == "HTTP/1.1 101", "upgraded"); CHECK(used == env_out_len(fd), "the answer is all"); }
    void poll() { const unsigned char *p = env_out(fd); size_t n = env_out_len(fd);
        if (!upgraded) { for (; used < n; used++) { head += (char)p[used]; if (head.size() >= 4 && head.compare(head.size() - 4, 4, "\r\n\r\n") == 0) { used++; upgraded = head.substr(0, 12) == "HTTP/1.1 101"; break; } } if (!upgraded) { head.append((const char *)p + used, n - used); used = n; return; } }
        while (n - used >= 2) { size_t i = used; unsigned a = p[i], b = (unsigned)fsx_concretize(p[i + 1]); CHECK((a & 0xF0) == 0x80, "server frames are final and plain"); CHECK(((a & 15) == 2) | ((a & 15) == 10), "server frames are binary or pong"); CHECK((b & 128) == 0, "server frames are not masked"); i += 2; uint64_t len = b & 127; int ext = len == 126 ? 2 : len == 127 ? 8 : 0; if (n - i < (size_t)ext) break; if (ext) { len = 0; for (int k = 0; k < ext; k++) len = len << 8 | p[i++]; len = (uint64_t)fsx_concretize(len); CHECK(ext == 2 ? len > 125 : len > 65535, "length encoded minimally"); } if (n - i < len) break; if ((a & 15) == 2) mqtt.append((const char *)p + i, len); else pongs.push_back(Bytes((const char *)p + i, len)); frames.push_back(len); used = i + len; }
        while (mused < mqtt.size()) { OutPkt o; size_t k = decodeOut((const unsigned char *)mqtt.data() + mused, mqtt.size() - mused, ver, o); if (!k) break; CHECK(o.ok, "C29: broker sent a malformed packet"); mused += k; pk.push_back(o); } }
    std::vector<OutPkt> take() { poll(); std::vector<OutPkt> r; r.swap(pk); return r; }
};
